#!/usr/bin/env python3-vt
"""check.py <property id> [--tier quick|thorough] [--replay FILE]"""
import os, sys, argparse
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
sys.setrecursionlimit(200000)
import threading
threading.stack_size(512 * 1024 * 1024)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('property')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED', '1') or 1))
    ap.add_argument('--replay')
    a = ap.parse_args()
    from zv import driver
    if a.replay:
        driver.do_replay(a.replay)
        return 0
    import importlib
    m = importlib.import_module('contracts.' + a.property.lower())
    fn = getattr(m, 'check', None)
    return fn(a.tier, a.seed) if fn else driver.check(a.property, a.tier, a.seed)


if __name__ == '__main__':
    rc = [2]

    def run():
        import traceback
        try: rc[0] = main()
        except Exception:
            traceback.print_exc()
            rc[0] = 2
    t = threading.Thread(target=run)
    t.start()
    t.join()
    sys.stdout.flush()
    sys.exit(rc[0])
