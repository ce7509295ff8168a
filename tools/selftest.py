"""Soundness self-test of the interval back end: random terms, random boxes, random points (python3-vt tools/selftest.py [n])."""
import sys, os, random, threading
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import numpy as np
from zv.terms import *
from zv.evalt import evalF
from zv import interval

FNS1 = ['fabs', 'sqrt', 'sin', 'cos', 'tan', 'asin', 'acos', 'atan', 'exp', 'exp2', 'log', 'log2', 'cbrt', 'sinh', 'cosh', 'tanh', 'asinh', 'acosh', 'atanh', 'floor', 'ceil', 'trunc', 'round', 'rint']


def rterm(rng, vs, d):
    if d == 0 or rng.random() < .1: return rng.choice(vs + [fc(rng.choice([0, 1, .5, 2, -1, 1e-3, 1e30, .25, 3.7]))])
    k = rng.random()
    g = lambda: rterm(rng, vs, d - 1)
    if k < .3: return fadd(g(), g())
    if k < .4: return fsub(g(), g())
    if k < .55: return fmul(g(), g())
    if k < .6:
        x = g()
        return fmul(x, x)
    if k < .65: return fdiv(g(), g())
    if k < .7:
        x, y, z = g(), g(), g()
        d = rng.choice([lambda: fadd(fn('fabs', x), fn('fabs', y)), lambda: fn('sqrt', fadd(fmul(x, x), fmul(y, y))), lambda: fadd(fmul(y, y), fn('fabs', x)), lambda: fn('fabs', x)])()
        return rng.choice([lambda: fdiv(x, d), lambda: fmul(x, fdiv(rng.choice([fc(1), fc(3), fc(.5)]), d)), lambda: fdiv(fneg(x), d)])()
    if k < .8: return fn(rng.choice(FNS1), g())
    if k < .84: return fn(rng.choice(['atan2', 'pow', 'fmin', 'fmax', 'copysign']), g(), g())
    if k < .86: return fn('fma', g(), g(), g())
    return ite(rbool(rng, vs, d - 1), g(), g())


def rbool(rng, vs, d):
    k = rng.random()
    if d > 0 and k < .2: return NOT(rbool(rng, vs, d - 1))
    if d > 0 and k < .4: return AND(rbool(rng, vs, d - 1), rbool(rng, vs, d - 1))
    if d > 0 and k < .5: return OR(rbool(rng, vs, d - 1), rbool(rng, vs, d - 1))
    a, b = rterm(rng, vs, d), rterm(rng, vs, d)
    return [fcmp_lt, fcmp_le, fcmp_eq][rng.randrange(3)](a, b) if k < .95 else isnan(a)


def main(n, seed):
    rng = random.Random(seed)
    proved = points = 0
    for k in range(n):
        vs = [var('x%d' % i, 'f') for i in range(rng.choice([1, 2, 3]))]
        box = {}
        hy = []
        for v in vs:
            a, b = sorted((rng.choice([-1, 0, 1, 2, -2, .5, 1e-3, 1e10, -1e20, rng.uniform(-3, 3)]), rng.choice([-1, 0, 1, 2, 3.3, -2, rng.uniform(-3, 3), 1e20])))
            box[v] = (float(np.float32(a)), float(np.float32(b)))
            hy += [fc(a) <= v, v <= fc(b)]
        for _ in range(rng.choice([0, 0, 1, 2])): hy.append(rbool(rng, vs, 2))
        t = rterm(rng, vs, rng.choice([2, 3, 4]))
        an = interval.An(100000)
        C = an.ctx({}, {})
        for h in hy + hy:
            if C is not None: C = an.assume(h, True, C)
        iv = an.ev(t, C) if C is not None else None
        goal = rng.choice([NOT(isnan(t)), t <= fc(1),  t <= fc(rng.choice([0, 1, 4])), rbool(rng, vs, 3)])
        ok = interval.prove(hy, goal, 1.0, 60)
        proved += ok
        for _ in range(60):
            env = {}
            for v in vs:
                l, h = box[v]
                m = rng.random()
                x = l if m < .15 else h if m < .3 else np.nextafter(np.float32(l), np.float32(h)) if m < .35 else 0.0 if m < .4 and l <= 0 <= h else l + (h - l) * rng.random() ** rng.choice([1, 8])
                x = np.float32(min(max(float(x), l), h))
                if rng.random() < .1 and len(env): x = np.float32(min(max(float(rng.choice(list(env.values()))), l), h))
                env[v] = x
            try:
                if not all(evalF(hy, env)): continue
                val, gv = evalF([t, goal], env)
            except Exception as e:
                continue
            points += 1
            if C is None: raise SystemExit('UNSOUND: hypotheses called impossible %s at %s' % (hy, env))
            if val != val and not iv.nan or val == val and not (not iv.empty() and iv.lo <= val <= iv.hi):
                raise SystemExit('UNSOUND: %s = %r not in %s at %s under %s' % (show(t), val, iv, env, hy))
            if ok and not gv: raise SystemExit('UNSOUND: proved %s but false at %s under %s' % (show(goal), env, hy))
    print('terms %d, goals proved %d, points checked %d: sound on all' % (n, proved, points))


if __name__ == '__main__':
    sys.setrecursionlimit(100000)
    main(int(sys.argv[1]) if len(sys.argv) > 1 else 3000, int(sys.argv[2]) if len(sys.argv) > 2 else 1)
