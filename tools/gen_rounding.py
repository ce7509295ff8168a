"""Write contracts/rounding.json: the rounding error each real-arithmetic contract promises, per box of inputs.

The promise is the bound measured on the current tree, widened 32 times and to at least 1e-5 (zv/rounding.py: tolerance); it is committed,
so that a check compares the code it sees with the promise and not with itself.  Boxes on which no bound is found get none."""
import sys, os, json, time, threading, warnings
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.setrecursionlimit(200000)
threading.stack_size(512 << 20)
warnings.simplefilter('ignore')
PROPS = sys.argv[1:] or ['C08', 'C11', 'C12', 'C13', 'C14', 'C16', 'C17', 'C18', 'C19', 'C20', 'C21', 'C22', 'C23', 'C24', 'C25', 'C26']


def main():
    from zv import driver, rounding
    from zv.verify import execute
    out = {p: dict(t) for p, t in rounding.table().items()}
    for pid in PROPS:
        m, cs = driver.load(pid)
        cs = [c for c in cs if c.theory in ('R', 'FR', 'FlR')]
        prog, bad = driver.build(cs)
        t, n = {}, 0
        for c in cs:
            ins, t0 = c.inputs(), time.time()
            vc = execute(prog, c, ins)
            if c.opts.get('noround') or not rounding.goals_of(c, ins, vc.outs): continue
            n += 1
            d = {}
            for b in rounding.BOXES:
                r = rounding.measure(c, b, ins, vc)
                if r is None: continue
                tol = rounding.tolerance(r, pid == 'C12', b in rounding.SCALED)
                if tol[:2] != (None, None): d[b] = [float('%.3g' % x) if x is not None else None for x in tol[:2]] + ([True] if tol[2] and b != 'unit' else [])      # not around zero: an early return there is harmless
            if d: t[c.id] = d
            if time.time() - t0 > 1: print('  slow:', c.id, round(time.time() - t0, 1))
        out[pid] = t
        print(pid, len(t), 'of', n, 'contracts; without a bound:', ' '.join(c.id for c in cs if c.id not in t))
    f = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'contracts', 'rounding.json')
    with open(f, 'w') as h:
        h.write('{\n' + ',\n'.join(' %s: {\n' % json.dumps(p) + ',\n'.join('  %s: %s' % (json.dumps(k), json.dumps(v)) for k, v in t.items()) + '\n }' for p, t in out.items()) + '\n}\n')


t = threading.Thread(target=main)
t.start()
t.join()
