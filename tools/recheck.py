"""Runs the check of each seeded change's property against a scratch copy with the change applied (python3-vt tools/recheck.py [id ...]; J = jobs)."""
import sys, os, json, shutil, time
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import plant
from concurrent.futures import ThreadPoolExecutor


def one(sid):
    root = '/tmp/pl/re-' + sid
    shutil.rmtree(root, ignore_errors=True)
    os.makedirs(root)
    try:
        plant.sh(f'git -C /repo archive HEAD --prefix=repo/ | tar x -C {root}')
        rc, o = plant.sh(f'git apply --unsafe-paths --directory={root}/repo {plant.SEEDED}/{sid}/patch.diff || (cd {root}/repo && patch -p1 < {plant.SEEDED}/{sid}/patch.diff)')
        pid = json.load(open(f'{plant.SEEDED}/{sid}/meta.json'))['property']
        plant.sh(f'cd {plant.HERE} && git archive HEAD --prefix=verif/ | tar x -C {root} --exclude=verif/seeded')
        t = time.time()
        rc, o = plant.sh(f'ZCM_REPO={root}/repo python3-vt check.py {pid}', cwd=root + '/verif', timeout=1500)
        v = [l for l in o.splitlines() if 'VIOLATION' in l]
        return sid, pid, 'CAUGHT' if rc == 1 and v else 'MISSED rc=%d %s' % (rc, o[-300:]), 'no-input' if v and all(l.endswith('no-failing-input-found') for l in v) else 'witness' if v else '', round(time.time() - t)
    finally: shutil.rmtree(root, ignore_errors=True)


if __name__ == '__main__':
    ids = sys.argv[1:] or sorted(os.listdir(plant.SEEDED))
    with ThreadPoolExecutor(int(os.environ.get('J', '3'))) as ex:
        for r in ex.map(one, ids): print(*r, flush=True)
