"""Conformance of the framework itself (thorough tier): the terms the executor derives from the IR are evaluated on random
inputs and compared, bit for bit, with what the g++-compiled code returns.  A difference means that the verifier's reading
of the code is wrong; it is an error of the check (exit 2), never a verdict on the property."""
import os, copy, random, time, math, traceback, multiprocessing
import numpy as np
from .terms import *
from .contract import *
from .execir import Undecided
from .evalt import *
from .replay import *
from .extract import BuildError

_j = {}


class Mismatch(str):
    cid, vals = None, None


def points(c, seed, per):
    from .verify import to32
    rng = random.Random('conform/%s/%s' % (seed, c.id))
    n = 0
    for v in candidates(c, rng, 12 * per):
        yield to32(c, v)


def one(c, runner, seed, per):
    """(points compared, [mismatch texts])"""
    from .verify import env_hp
    if c.requires and not any(p.kind in 'iuq' for p in c.params):
        c = copy.copy(c)                    # the terms for all inputs, not only those of the precondition
        c.requires = None
    ins = c.inputs()
    try: vc = execute(_j['prog'], c, ins)
    except Undecided: return 0, []
    if not vc.returns: return 0, []
    outs = [(nm, i, t) for nm, vs in vc.outs.items() for i, t in enumerate(vs)]
    ts = [t for _, _, t in outs]
    known = {v for vs in ins.values() for v in vs}
    undef = sorted({v for t in ts for v in free_vars(t) if v not in known}, key=lambda v: v.args[0])
    if any(not v.args[0].startswith('undef!') for v in undef): return 0, []
    rng = random.Random('undef/' + c.id)
    reqs = list(vc.reqs0)
    guards = [IMP(o.pc, o.cond) for o in vc.obls]
    guards = [g for g in guards if g is not TRUE and all(v in known or v in undef for v in free_vars(g))]
    done, bad = 0, []
    for vals in points(c, seed, per):
        if done >= per: break
        env = envof(c, ins, vals)
        try:
            for v in undef: env[v] = np.float32(rng.uniform(-9, 9)) if v.sort == 'f' else np.float64(rng.uniform(-9, 9)) if v.sort == 'd' else rng.random() < .5 if v.sort == 'b' else rng.getrandbits(v.sort)
            if not all(evalF([r], env)[0] for r in reqs): continue
            if not all(evalF([g], env)[0] for g in guards): continue          # an assertion fires, arithmetic is undefined ...
            want = evalF(ts, env)
        except (EvalError, TypeError, OverflowError, ValueError): continue
        st, res = runner.call(c, vals)
        done += 1
        if st != 'ok':
            bad.append(Mismatch('%s on %s: terms say %s, the code does not return (%s)' % (c.id, show_vals(vals), show_vals(want), res[:200])))
            bad[-1].cid, bad[-1].vals = c.id, vals
            break
        for (nm, i, t), w in zip(outs, want):
            if not samev(res[nm][i], w, t.sort):
                bad.append(Mismatch('%s on %s: %s[%d] is %r in the code and %r by the terms' % (c.id, show_vals(vals), nm, i, res[nm][i], w)))
                bad[-1].cid, bad[-1].vals = c.id, vals
                break
        if bad: break
    return done, bad


def chunk(i):
    cs = _j['chunks'][i]
    try: rn = Runner(cs, _j['head'], _j['config'])
    except BuildError as e: return 0, 0, ['runner: ' + str(e)[:600]]
    n, k, bad = 0, 0, []
    try:
        for c in cs:
            if time.time() > _j['end']: break
            try: a, b = one(c, rn, _j['seed'], _j['per'])
            except Exception: a, b = 0, ['%s: %s' % (c.id, traceback.format_exc()[-600:])]
            n += a
            k += a > 0
            bad += b
    finally: rn.close()
    return n, k, bad


def run(prog, cs, seed, head, per=12, config='debug', end=None, nproc=8):
    """(points, contracts exercised, mismatches)"""
    if not cs: return 0, 0, []
    m = max(1, min(32, len(cs) // 60 + 1))
    _j.update(prog=prog, chunks=[cs[i::m] for i in range(m)], seed=seed, per=per, head=head, config=config, end=end or time.time() + 300)
    try: Runner(cs[:1], head, config)           # compiles the library once
    except BuildError as e: return 0, 0, ['runner: ' + str(e)[:600]]
    ctx = multiprocessing.get_context('fork')
    with ctx.Pool(nproc) as pool: rs = pool.map(chunk, range(m), chunksize=1)
    return sum(r[0] for r in rs), sum(r[1] for r in rs), [b for r in rs for b in r[2]]


# ---------------------------------------------------------------- rounding-error bounds
def box_point(hy, vs, rng):
    """a point of a box: bounds are read off the conjuncts  lo <= x, x <= hi"""
    lo, hi = {}, {}

    def walk(h):
        if h.op == 'and' and h.sort == 'b':
            for a in h.args: walk(a)
        elif h.op == 'fle':
            a, b = h.args
            if b.op == 'v' and a.op == 'c': lo[b] = fval(a)
            if a.op == 'v' and b.op == 'c': hi[a] = fval(b)
    for h in hy: walk(h)
    env = {}
    k = rng.random()
    for v in vs:
        if v.sort != 'f':
            env[v] = rng.random() < .5 if v.sort == 'b' else rng.randrange(4)
            continue
        a, b = lo.get(v, -1), hi.get(v, 1)
        x = rng.uniform(a, b) if k < .6 else rng.choice((a, b, 0 if a <= 0 <= b else a, rng.uniform(a, b), 1 if a <= 1 <= b else b))
        if k > .9 and a <= 0 <= b: x = rng.uniform(a, b) * 10.0 ** rng.uniform(-8, 0)
        env[v] = np.float32(min(max(x, a), b))
    return env


def _rp(i):
    from . import rounding
    c = _j['cs'][i]
    rng = random.Random('rp/%s/%s' % (_j['seed'], c.id))
    pts, bad = 0, []
    try:
        ins = c.inputs()
        vc = execute(_j['prog'], c, ins)
        gs = rounding.goals_of(c, ins, vc.outs)
        vs = [v for p in c.params if p.mode != 'out' for v in ins[p.name] if v.op == 'v']
        for box in c.rounding:
            hy = rounding.BOXES[box](c, ins) + [h for h in vc.reqs if rounding.simple(h)]
            bs = [rounding.bound(g.lhs, hy) for g in gs]
            for _ in range(_j['per']):
                if time.time() > _j['end']: return pts, bad
                env = box_point(hy, vs, rng)
                if not all(evalF([h], env)[0] for h in hy): continue
                for g, b in zip(gs, bs):
                    if b is None: continue
                    try:
                        a = evalF([g.lhs], env)[0]
                        r = evalR([g.lhs], {t: (mpf(float(x)) if t.sort == 'f' else x) for t, x in env.items()})[0]
                    except (EvalError, ZeroDivisionError, KeyError): continue
                    pts += 1
                    d = float(abs(mpf(float(a)) - r)) if a == a else math.inf
                    if d > b[0] or (b[1] < 1e-3 and d > b[1] * float(abs(r)) + 1e-37):
                        bad.append('%s %s %s: error %g of %g, bound %s at %s' % (c.id, box, g.name, d, float(r), b, {str(k.args[0]): float(x) for k, x in env.items()}))
    except Undecided: pass
    except Exception: bad.append(c.id + ': ' + traceback.format_exc()[-500:])
    return pts, bad


def rounding_points(prog, cs, seed, per, end, nproc=8):
    _j.update(prog=prog, cs=cs, seed=seed, per=per, end=end)
    ctx = multiprocessing.get_context('fork')
    with ctx.Pool(nproc) as pool: rs = pool.map(_rp, range(len(cs)), chunksize=1)
    return sum(r[0] for r in rs), [b for r in rs for b in r[1]]
