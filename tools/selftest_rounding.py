"""Test of the rounding-error bounds: random points of each box, machine evaluation against high precision evaluation of the same terms.

usage: selftest_rounding.py [points per contract and box] [seed] [Cxx ...]"""
import sys, os, random, threading, warnings, math
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.setrecursionlimit(200000)
threading.stack_size(512 << 20)
warnings.simplefilter('ignore')
N = int(sys.argv[1]) if len(sys.argv) > 1 else 20
SEED = sys.argv[2] if len(sys.argv) > 2 else '1'


def sample(hy, vs, rng):
    """a point of a box: bounds are read off the conjuncts  lo <= x, x <= hi"""
    import numpy as np
    from zv.terms import fval
    lo, hi = {}, {}
    def walk(h):
        if h.op == 'and':
            for a in h.args: walk(a)
        elif h.op == 'fle':
            a, b = h.args
            if b.op == 'v' and a.op == 'c': lo[b] = fval(a)
            if a.op == 'v' and b.op == 'c': hi[a] = fval(b)
    for h in hy: walk(h)
    env = {}
    k = rng.random()
    for v in vs:
        if v.sort != 'f':
            env[v] = rng.random() < .5 if v.sort == 'b' else rng.randrange(4)
            continue
        a, b = lo.get(v, -1), hi.get(v, 1)
        x = rng.uniform(a, b) if k < .6 else rng.choice((a, b, 0 if a <= 0 <= b else a, rng.uniform(a, b), 1 if a <= 1 <= b else b))
        if k > .9 and a <= 0 <= b: x = rng.uniform(a, b) * 10.0 ** rng.uniform(-8, 0)
        env[v] = np.float32(min(max(x, a), b))
    return env


def main():
    from zv import driver, rounding
    from zv.verify import execute
    from zv.terms import subterms
    from zv.evalt import evalF, evalR, EvalError, mpf
    import numpy as np
    bad = pts = 0
    for pid in sys.argv[3:] or sorted(rounding.table()):
        m, cs = driver.load(pid)
        cs = [c for c in cs if c.rounding]
        prog, _ = driver.build(cs)
        for c in cs:
            rng = random.Random('%s/%s' % (SEED, c.id))
            ins = c.inputs()
            vc = execute(prog, c, ins)
            gs = rounding.goals_of(c, ins, vc.outs)
            vs = [v for p in c.params if p.mode != 'out' for v in ins[p.name] if v.op == 'v']
            for box in c.rounding:
                hy = rounding.BOXES[box](c, ins) + [h for h in vc.reqs if rounding.simple(h)]
                bs = [rounding.bound(g.lhs, hy) for g in gs]
                for _ in range(N):
                    env = sample(hy, vs, rng)
                    if not all(evalF([h], env)[0] for h in hy): continue
                    for x in subterms([g.lhs for g in gs]):       # reads in branches the box excludes
                        if x.op == 'v' and x not in env: env[x] = {'f': np.float32(0), 'b': False}.get(x.sort, 0)
                    for g, b in zip(gs, bs):
                        if b is None: continue
                        try:
                            a = evalF([g.lhs], env)[0]
                            r = evalR([g.lhs], {t: (mpf(float(x)) if t.sort == 'f' else x) for t, x in env.items()})[0]
                        except (EvalError, ZeroDivisionError): continue
                        pts += 1
                        d = float(abs(mpf(float(a)) - r)) if a == a else math.inf
                        if d > b[0] or (b[1] < 1e-3 and d > b[1] * float(abs(r)) + 1e-37):
                            bad += 1
                            print('BAD', pid, c.id, box, g.name, 'error', d, 'value', float(r), 'bound', b, {str(k.args[0]): float(x) for k, x in env.items()})
    print(pts, 'points', bad, 'bad')


t = threading.Thread(target=main)
t.start()
t.join()
