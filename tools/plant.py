"""Turns a bug described in a plants file into /verif/seeded/<id>: confirms in a scratch copy that the change
builds, passes the stable tests, and that the demonstration passes without it and fails with it; then runs the
checks of the given properties against the patched copy.

usage: plant.py plants.py [id ...] [--nocheck]      (a plants file defines PLANTS = [dict(...), ...])
"""
import sys, os, subprocess, shutil, json, glob, runpy, tempfile
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEEDED = HERE + '/seeded'
BASE = set(json.load(open('/opt/vp/BASELINE.json')).get('stable', [])) if os.path.exists('/opt/vp/BASELINE.json') else set()

DEMO = '''#!/bin/bash
# exit 0: the property held on what the program tried; 1: it did not (cwd: the repository)
d=$(cd "$(dirname "$0")" && pwd); t=$(mktemp -d); trap 'rm -rf "$t"' EXIT
%s
'''
BUILD1 = '''g++ -std=c++14 -O0 %s -include stddef.h -Iinclude -Isrc "$d/demo.cpp" src/*.cpp -o "$t/demo" || exit 2
timeout 60 "$t/demo"'''

PRE = '''#include <cstdio>
#include <cmath>
#include <cstring>
#include <limits>
#include <zcm/vec2.hpp>
#include <zcm/vec3.hpp>
#include <zcm/vec4.hpp>
#include <zcm/ivec2.hpp>
#include <zcm/ivec3.hpp>
#include <zcm/ivec4.hpp>
#include <zcm/bvec2.hpp>
#include <zcm/bvec3.hpp>
#include <zcm/bvec4.hpp>
#include <zcm/mat2.hpp>
#include <zcm/mat3.hpp>
#include <zcm/mat4.hpp>
#include <zcm/quat.hpp>
#include <zcm/matrix.hpp>
#include <zcm/matrix_transform.hpp>
#include <zcm/quaternion.hpp>
#include <zcm/geometric.hpp>
#include <zcm/common.hpp>
#include <zcm/exponential.hpp>
#include <zcm/angle_and_trigonometry.hpp>
#include <zcm/component_wise.hpp>
#include <zcm/color_space.hpp>
#include <zcm/constants.hpp>
#include <zcm/hash.hpp>
#include <zcm/type_ptr.hpp>
using namespace zcm;
#define CHECK(c) do { if (!(c)) { std::printf("failed: %s\\n", #c); return 1; } } while (0)
static inline bool near(float a, float b, float e = 1e-4f) { return std::fabs(a - b) <= e; }
'''

def sh(cmd, cwd=None, timeout=900):
    p = subprocess.run(cmd, shell=True, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
    return p.returncode, p.stdout

def scratch(name):
    root = f'/tmp/pl/{name}'
    shutil.rmtree(root, ignore_errors=True)
    os.makedirs(root)
    sh(f'git -C /repo archive HEAD --prefix=repo/ | tar x -C {root}; cd {root}/repo; git init -q .; git add -A; git -c user.name=x -c user.email=x@x commit -qm base; cp -a /opt/vp {root}/vp')
    for f in glob.glob(root + '/vp/*.sh') + glob.glob(root + '/vp/cmake/*'):
        s = open(f).read().replace('/opt/vp', root + '/vp').replace('/repo', root + '/repo')
        open(f, 'w').write(s)
    return root

def tests(root):
    rc, out = sh(f'bash {root}/vp/test.sh {root}/o.json')
    try: r = json.load(open(root + '/o.json'))
    except Exception: return False, out[-2000:]
    missing = BASE - set(r['passed'])
    return not missing and bool(r['passed']), ('missing ' + ' '.join(sorted(missing))[:600] if missing else '') + ('' if r['passed'] else out[-1500:])

def plant(p, check=True):
    pid = p['id']; log = []
    root = scratch(pid); repo = root + '/repo'
    try:
        for f, old, new in p['edits']:
            s = open(f'{repo}/{f}').read()
            if s.count(old) != 1: return pid, 'BAD', f'{f}: {s.count(old)} matches for {old!r}'
            open(f'{repo}/{f}', 'w').write(s.replace(old, new))
        _, diff = sh('git diff', cwd=repo)
        out = f'{SEEDED}/{pid}'
        if os.path.isdir(out): shutil.rmtree(out)
        os.makedirs(out)
        open(out + '/patch.diff', 'w').write(diff)
        open(out + '/demo.sh', 'w').write(DEMO % (p.get('script') or BUILD1 % p.get('flags', '')))
        open(out + '/demo.cpp', 'w').write(p.get('pre', PRE) + p['demo'])
        json.dump({'property': p['property'], 'needs': p['needs'], 'what_it_breaks': p['breaks']}, open(out + '/meta.json', 'w'), indent=1)
        ok, why = tests(root)
        bad = []
        if not ok: bad.append('TESTS ' + why)
        rc, o = sh(f'bash {out}/demo.sh', cwd=repo)
        if rc == 0 or rc == 2: bad.append(f'demo on patched: {rc} {o[-800:]}')
        else: log.append(o.strip()[-100:])
        sh('git checkout -q .', cwd=repo)
        rc, o = sh(f'bash {out}/demo.sh', cwd=repo)
        if rc != 0: bad.append(f'demo on clean: {rc} {o[-800:]}')
        if bad:
            shutil.rmtree(out)
            return pid, 'REJECTED', '\n'.join(bad)
        res = []
        if check:
            rc, o = sh(f'git apply {out}/patch.diff', cwd=repo)
            assert rc == 0, o
            sh(f'cp -a {HERE} {root}/verif; rm -rf {root}/verif/seeded')
            for c in [p['property']] + p.get('also', []):
                rc, o = sh(f'ZCM_REPO={repo} python3-vt check.py {c}', cwd=root + '/verif', timeout=1500)
                v = [l for l in o.splitlines() if 'VIOLATION' in l]
                res.append(f'{c}: rc={rc} {"CAUGHT" if rc == 1 and v else "MISSED"} {v[:1]} {"" if rc in (0,1) else o[-600:]}')
        return pid, 'ok', ' | '.join(log + res)
    finally:
        shutil.rmtree(root, ignore_errors=True)

if __name__ == '__main__':
    args = [a for a in sys.argv[1:] if not a.startswith('--')]
    P = runpy.run_path(args[0])['PLANTS']
    if args[1:]: P = [p for p in P if p['id'] in args[1:]]
    with ThreadPoolExecutor(int(os.environ.get('J', '3'))) as ex:
        for r in ex.map(lambda p: plant(p, '--nocheck' not in sys.argv), P):
            print(*r, flush=True)
