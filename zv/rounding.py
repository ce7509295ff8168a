"""Rounding-error bounds: |machine value - value of the same term over the reals|, on a box of inputs, along each path.

Sound forward error analysis on top of the interval back end (standard model: fl(x op y) = (x op y)(1 + d), |d| <= 2^-24,
plus half the smallest subnormal); branch decisions are taken as the machine takes them on both sides."""
import math
from .terms import *
from .interval import *
from .evalt import mpf

U = {'f': 2.0 ** -24, 'd': 2.0 ** -53}
ETA = {'f': 2.0 ** -149, 'd': 2.0 ** -1074}
G = 1 + 1e-9           # covers the double rounding of the bounds themselves
LIBM = ULPS


class Err(An):
    """er(t, C) = (absolute bound, relative bound); inf when no bound is known"""

    stable = True          # so far, every branch is decided over the reals as the machine decides it

    def settled(self, t, C):
        """is the condition t certain to have the same truth value in machine arithmetic and over the reals?"""
        key = ('st', t, C[2])
        r = self.memo.get(key)
        if r is None: r = self.memo[key] = self.settled1(t, C)
        return r

    def settled1(self, t, C):
        op = t.op
        if op in ('c', 'v'): return True
        if op == 'not': return self.settled(t.args[0], C)
        if op == 'and':
            if any(self.bl(x, C) == (False, True) and self.settled(x, C) for x in t.args): return True
            D = C
            for x in t.args:
                if not self.settled(x, D): return False
                D = self.assume(x, True, D)
                if D is None: return True
            return True
        if op == 'ite' and t.sort == 'b':
            if not self.settled(t.args[0], C): return False
            for ok, val, br in zip(self.bl(t.args[0], C), (True, False), t.args[1:]):
                D = self.assume(t.args[0], val, C) if ok else None
                if D is not None and not self.settled(br, D): return False
            return True
        if op == 'isnan':
            iv = self.ev(t.args[0], C)
            return not iv.nan and not iv.empty()
        if op in ('flt', 'fle', 'feq'):
            x, y = t.args
            ex, ey = self.er(x, C)[0], self.er(y, C)[0]
            if ex == 0 and ey == 0: return True
            a, b = self.ev(x, C), self.ev(y, C)
            if a.nan or b.nan or a.empty() or b.empty(): return False
            gap = (ex + ey) * G
            return float(a.lo) - float(b.hi) > gap or float(b.lo) - float(a.hi) > gap
        return not any(v.sort in ('f', 'd') for v in free_vars(t))

    def er(self, t, C):
        key = ('er', t, C[2])
        r = self.memo.get(key)
        if r is None:
            self.left -= 1
            if self.left < 0: raise Budget()
            a, q = self.er1(t, C)
            if a != a: a = INF
            if q != q: q = INF
            iv = self.ev(t, C)
            if iv.empty() or iv.nan or not (math.isfinite(iv.lo) and math.isfinite(iv.hi)): a = q = INF
            elif q < .01:
                # |F - R| <= q |R|, |R| <= |F| + |F - R|
                a = min(a, q * max(abs(float(iv.lo)), abs(float(iv.hi))) / (1 - q) * G)
            r = self.memo[key] = (a, q)
        return r

    def mag(self, t, C):
        iv = self.ev(t, C)
        if iv.empty(): return 0.0
        return max(abs(float(iv.lo)), abs(float(iv.hi)))

    def er1(self, t, C):
        op, s = t.op, t.sort
        if op in ('c', 'v'): return 0.0, 0.0
        u, eta = U[s], ETA[s]
        if op == 'fneg': return self.er(t.args[0], C)
        if op == 'ite':
            if self.stable and not self.settled(t.args[0], C): self.stable = False
            ct, cf = self.bl(t.args[0], C)
            a = q = 0.0
            for ok, val, br in ((ct, True, t.args[1]), (cf, False, t.args[2])):
                D = self.assume(t.args[0], val, C) if ok else None
                if D is not None:
                    x = self.er(br, D)
                    a, q = max(a, x[0]), max(q, x[1])
            return a, q
        if op in ('fadd', 'fmul', 'fdiv'):
            x, y = t.args
            (ax, qx), (ay, qy) = self.er(x, C), self.er(y, C)
            mx, my, mt = self.mag(x, C), self.mag(y, C), self.mag(t, C)
            ix, iy = self.ev(x, C), self.ev(y, C)
            if op == 'fadd':
                a = (ax + ay) * G + u * mt
                q = INF
                if ax == 0 and ay == 0: q = u * (1 + 2 * u)
                elif (ix.lo >= 0 and iy.lo >= 0) or (ix.hi <= 0 and iy.hi <= 0):
                    m = max(qx, qy)
                    q = (m + u + m * u) * G
                return a, q
            if op == 'fmul':
                a = (mx * ay + my * ax + ax * ay) * G + u * mt + eta
                p2 = any(z.op == 'c' and _ispow2_(z) for z in (x, y))
                q = (qx + qy + qx * qy) * G
                if not p2: q = (q + u + q * u) * G
                if p2: a = (mx * ay + my * ax + ax * ay) * G
                return a, q
            lo = min(abs(float(iy.lo)), abs(float(iy.hi))) if not (iy.lo <= 0 <= iy.hi) else 0.0
            d = lo - ay
            a = INF
            if d > 0: a = (ax / d + mx * ay / (d * lo)) * G + u * mt + eta
            q = INF
            if qy < .01: q = ((1 + qx) / (1 - qy) * (1 + u) - 1) * G + 1e-16
            return a, q
        if op in ('fpext',): return self.er(t.args[0], C)
        if op == 'fptrunc':
            a, q = self.er(t.args[0], C)
            return a * G + u * self.mag(t, C) + eta, (q + u + q * u) * G
        if op in ('sitofp', 'uitofp'): return INF, u
        if op == 'fn':
            n = t.args[0]
            es = [self.er(x, C) for x in t.args[1:]]
            a, q = es[0]
            if n == 'fabs': return a, q
            l = LIBM * 2 * u
            if n == 'sqrt':
                iv = self.ev(t.args[1], C)
                lo = float(iv.lo)
                ra = math.sqrt(a) if a < INF else INF
                if lo > a: ra = min(ra, a / (math.sqrt(lo) + math.sqrt(lo - a)) * 1.000001)
                r = ra * G + u * self.mag(t, C)
                qq = q / (1 + math.sqrt(max(0, 1 - q))) * G if q < .5 else INF      # 1 - sqrt(1 - q)
                return r, (qq + u + qq * u) * G
            if n in ('sin', 'cos'): return a * G + l, INF
            if n in ('atan', 'tanh', 'asinh'): return a * G + l * max(1, self.mag(t, C)), INF
            if n in ('asin', 'acos'):
                m = self.mag(t.args[1], C) + a
                if m < 1: return a / math.sqrt(1 - m * m) * G + l * 4, INF
                # |acos x - acos y| <= pi sqrt(|x - y| / 2)
                return (math.pi * math.sqrt(a / 2) + l * 4 if a < INF else INF), INF
            if n == 'atan2':
                # the angle between (x, y) and a point at distance e from it is at most asin(e / |(x, y)|); away from the cut
                iy, ix = self.ev(t.args[1], C), self.ev(t.args[2], C)
                (ay, _), (ax, _) = es
                away = lambda iv, e: max(float(iv.lo) - e, -float(iv.hi) - e, 0.0)       # least magnitude of both values
                if ax == ay == 0: return l * max(1, self.mag(t, C)), l
                if ax < INF and ay < INF and not (ix.nan or iy.nan) and (float(ix.lo) - ax > 0 or away(iy, ay) > 0):
                    r, e = math.hypot(away(ix, ax), away(iy, ay)), math.hypot(ax, ay)
                    if e < r: return math.asin(e / r) * G + l * 2 * max(1, self.mag(t, C)), INF
                return INF, INF
            if n in ('fmin', 'fmax'): return max(e[0] for e in es), max(e[1] for e in es)
            if n in ('fma', 'muladd'):
                x, y, z = t.args[1:]
                p = (self.mag(x, C) * es[1][0] + self.mag(y, C) * es[0][0] + es[0][0] * es[1][0] + es[2][0]) * G
                return p + 2 * u * (self.mag(t, C) + self.mag(x, C) * self.mag(y, C)) + 2 * eta, INF
            if n in ('floor', 'ceil', 'trunc', 'round', 'rint'):
                if a == 0: return 0.0, 0.0
                iv = self.ev(t.args[1], C)
                if a < .25 and not (iv.nan or iv.empty()):
                    # the same integer for both values, wherever they lie
                    lo, hi = float(iv.lo) - a, float(iv.hi) + a
                    if math.floor(2 * lo) == math.floor(2 * hi) and 2 * lo > math.floor(2 * lo): return 0.0, 0.0
                return INF, INF
            if all(e[0] == 0 for e in es): return l * max(1, self.mag(t, C)), l
            if n in ('exp', 'exp2') and a < .1:
                q = math.expm1(a) + l * 1.1
                return INF, q * G
            if n == 'pow' and es[1][0] == 0 and q < .01:
                y = self.mag(t.args[2], C)
                if y * q < .1: return INF, (math.expm1(y * -math.log1p(-q)) + l * 1.1) * G
        return INF, INF


def _ispow2_(t):
    x = fval(t)
    return x == x and x not in (INF, -INF, 0) and abs(math.frexp(x)[0]) == .5


def bound(t, hyps, limit=40000):
    """(absolute, relative, magnitude) for term t under the box given by hyps, or None"""
    try:
        best = (0.0, 0.0, 0.0, True)
        flat = []
        for h in hyps: flat += list(h.args) if h.op == 'and' else [h]
        for cs in cases(flat):
            an = Err(limit)
            C = an.ctx({}, {})
            for _ in range(2):
                for h in cs:
                    if C is not None: C = an.assume(h, True, C)
            if C is None: continue
            a, q = an.er(t, C)
            best = (max(best[0], a), max(best[1], q), max(best[2], an.mag(t, C)), best[3] and an.stable)
        return best
    except (Budget, RecursionError, OverflowError, ValueError, ZeroDivisionError): return None


# ---------------------------------------------------------------- per-contract obligations (contracts/rounding.json)
def _f(p): return p.kind == 'f'


def _rng(lo, hi, vs): return [AND(fc(lo) <= x, x <= fc(hi)) for x in vs]


def hyps_unit(c, ins): return [h for p in c.params if p.mode != 'out' and _f(p) for h in _rng(-1.01, 1.01, ins[p.name])]


def hyps_away(c, ins):
    """no vector, quaternion or number close to zero"""
    r = [h for p in c.params if p.mode != 'out' and _f(p) for h in _rng(-2, 2, ins[p.name])]
    for p in c.params:
        if p.mode != 'out' and _f(p) and not p.type.startswith('mat'): r.append(OR(*[fn('fabs', x) >= fc(.5) for x in ins[p.name]]))
    return r


def hyps_pos(c, ins): return [h for p in c.params if p.mode != 'out' and _f(p) for h in _rng(.5, 2, ins[p.name])]


def hyps_eye(c, ins):
    """matrices near the identity"""
    if not any(p.type.startswith('mat') for p in c.params): return None
    r = []
    for p in c.params:
        if p.mode == 'out' or not _f(p): continue
        if p.type.startswith('mat'):
            n = int(p.type[3])
            for i, x in enumerate(ins[p.name]):
                e = 1.0 if i % (n + 1) == 0 else 0.0
                r += _rng(e - .05, e + .05, [x])
        else: r += _rng(-1.01, 1.01, ins[p.name])
    return r


def hyps_spread(c, ins):
    """scalar parameters in disjoint increasing intervals (left < right, near < far), vectors in the unit box"""
    if sum(1 for p in c.params if p.mode != 'out' and p.type == 'float') < 2: return None
    r, k = [], 0
    for p in c.params:
        if p.mode == 'out' or not _f(p): continue
        if p.type == 'float':
            r += _rng(1 + 2 * k, 1.5 + 2 * k, ins[p.name])
            k += 1
        else: r += _rng(-1.01, 1.01, ins[p.name])
    return r


def hyps_stairs(c, ins):
    """every parameter in an interval of its own, increasing"""
    if any(p.type.startswith('mat') for p in c.params) or sum(1 for p in c.params if p.mode != 'out' and _f(p)) < 2: return None
    r, k = [], 0
    for p in c.params:
        if p.mode == 'out' or not _f(p): continue
        r += _rng(1 + 2 * k, 1.5 + 2 * k, ins[p.name])
        k += 1
    return r


def _axis(i, sign):
    def h(c, ins):
        """vectors and quaternions close to an axis, numbers in [0, 1]"""
        if not any(p.mode != 'out' and _f(p) and p.count > 1 for p in c.params) or any(p.type.startswith('mat') for p in c.params): return None
        r = []
        for p in c.params:
            if p.mode == 'out' or not _f(p): continue
            if p.count == 1: r += _rng(0, 1, ins[p.name])
            else:
                for j, x in enumerate(ins[p.name]):
                    e = sign if j == i % p.count else 0
                    r += _rng(e - .1, e + .1, [x])
        return r
    return h


def hyps_cross(c, ins):
    """the k-th vector or quaternion close to the k-th axis, numbers in [0, 1]"""
    if any(p.type.startswith('mat') for p in c.params) or sum(1 for p in c.params if p.mode != 'out' and _f(p) and p.count > 1) < 2: return None
    r, k = [], 0
    for p in c.params:
        if p.mode == 'out' or not _f(p): continue
        if p.count == 1: r += _rng(0, 1, ins[p.name])
        else:
            for j, x in enumerate(ins[p.name]): r += _rng((j == k % p.count) - .1, (j == k % p.count) + .1, [x])
            k += 1
    return r


def hyps_view(c, ins):
    """a camera: eye near the origin, centre / direction near +z, up near +y"""
    names = {p.name: p for p in c.params if p.mode != 'out'}
    if 'up' not in names: return None
    r = []
    for n, p in names.items():
        e = {'up': (0, 1, 0), 'eye': (0, 0, 0)}.get(n, (0, 0, 1)) if p.type == 'vec3' else (0,) * p.count
        for x, m in zip(ins[n], e): r += _rng(m - .1, m + .1, [x])
    return r


def _scale(s):
    def h(c, ins):
        """vectors, quaternions and matrices of this order of magnitude (numbers too where there is nothing else)"""
        ps = [p for p in c.params if p.mode != 'out' and _f(p)]
        if not ps: return None
        big = any(p.count > 1 for p in ps)
        r = []
        for k, p in enumerate(ps):
            for i, x in enumerate(ins[p.name]):
                if p.count == 1 and big: lo, hi = .3 + .1 * k, .32 + .1 * k
                elif p.type.startswith('mat'):
                    e = (1.0 if i % (int(p.type[3]) + 1) == 0 else 0.0) + .01 * ((7 * i + 3 * k) % 5)
                    lo, hi = s * e, s * (e + .005)
                else: lo, hi = s * (1 + .3 * i + .1 * k), s * (1.02 + .3 * i + .1 * k)
                r += _rng(lo, hi, [x])
        return r
    return h


def _turned(s):
    def h(c, ins):
        """quaternions near the identity, vectors of this order of magnitude"""
        ps = [p for p in c.params if p.mode != 'out' and _f(p)]
        if not any(p.type == 'quat' for p in ps) or all(p.type == 'quat' for p in ps): return None
        r = []
        for k, p in enumerate(ps):
            for i, x in enumerate(ins[p.name]):
                if p.type == 'quat': r += _rng(*((.99, 1.01) if i == 3 else (.02 * (i + 1) + .01 * k, .02 * (i + 1) + .01 * k + .005)), [x])
                elif p.count == 1: r += _rng(.3 + .1 * k, .32 + .1 * k, [x])
                else: r += _rng(s * (1 + .3 * i + .1 * k), s * (1.02 + .3 * i + .1 * k), [x])
        return r
    return h


SCALED = ('tiny', 'huge', 'tinyturn', 'hugeturn')
BOXES = {'unit': hyps_unit, 'away': hyps_away, 'pos': hyps_pos, 'eye': hyps_eye, 'spread': hyps_spread, 'stairs': hyps_stairs,
         'first': _axis(0, 1), 'last': _axis(-1, 1), 'minuslast': _axis(-1, -1), 'cross': hyps_cross, 'view': hyps_view, 'tiny': _scale(2.0 ** -20), 'huge': _scale(2.0 ** 20), 'tinyturn': _turned(2.0 ** -20), 'hugeturn': _turned(2.0 ** 20)}


def goals_of(c, ins, outs):
    return [g for g in c.goals(ins, outs) if g.kind in ('real', 'auto', 'autol') and g.rhs is not None and g.lhs.sort == 'f' and g.lhs.op not in ('c', 'v')]


def simple(h):
    """a bound on one input"""
    if h.op in ('flt', 'fle', 'feq'): return all(a.op in ('c', 'v') for a in h.args)
    return h.op in ('and', 'not') and all(simple(a) for a in h.args)


def impossible(reqs, hyps, limit=4000):
    """no input of the box meets the precondition"""
    try:
        an = Err(limit)
        C = an.ctx({}, {})
        for h in hyps:
            for x in (h.args if h.op == 'and' else (h,)):
                if C is not None and x.op != 'not': C = an.assume(x, True, C)
        return C is None or any(an.bl(h, C) == (False, True) and an.settled(h, C) for h in reqs if not simple(h))
    except (Budget, RecursionError, OverflowError, ValueError, ZeroDivisionError): return False


def measure(c, box, ins, vc):
    """worst (abs, rel, magnitude) over the postconditions of c, inputs in the box; None when nothing is known"""
    hy = BOXES[box](c, ins)
    if hy is None: return None
    hy = hy + [h for h in vc.reqs if simple(h)]
    if impossible(vc.reqs, hy): return None
    r = []
    for g in goals_of(c, ins, vc.outs):
        b = bound(g.lhs, hy)
        if b is None: return None
        r.append(b)
    if not r: return None
    return tuple(max(x[i] for x in r) for i in range(3)) + (all(x[3] for x in r),)


def tolerance(m, rel=True, scaled=False):
    """what a contract promises: generous, so that another order of the same operations stays inside; relative
    accuracy only for the norms (sums of squares)"""
    a, q, mag = m[:3]
    top = mag if scaled else max(1.0, mag)
    ta = max(32 * a, 1e-5 * top) if a < INF else None
    if ta is not None and ta > 1e-2 * top: ta = None       # says nothing
    tq = max(32 * q, 1e-5) if rel and q < 1e-3 else None
    return ta, tq, m[3]        # m[3]: no branch depends on rounding


_table = None


def table():
    global _table
    if _table is None:
        import os, json
        f = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'contracts', 'rounding.json')
        _table = json.load(open(f)) if os.path.exists(f) else {}
    return _table


def obligations(prog, c):
    """[(box, tolerances, measured)] for the contract, from the code as it is now"""
    from .verify import execute
    ins = c.inputs()
    vc = execute(prog, c, ins)
    return [(box, tol, measure(c, box, ins, vc)) for box, tol in sorted(c.rounding.items())]


def kept(tol, m):
    """does the measured bound keep the promise?"""
    if m is None: return False
    a, q, _, stable = m
    if len(tol) > 2 and tol[2] and not stable: return False
    return (tol[0] is None or a <= tol[0]) and (tol[1] is None or q <= tol[1])


def witness(c, rng, runner, limit=20.0):
    """an input of a box on which the real code's result is off by more than promised"""
    import time
    import numpy as np
    from .replay import outvars, envof, reqs_ok, show_vals, params_of
    from .evalt import evalR, evalF, EvalError
    ins, outs = c.inputs(), outvars(c)
    goals = [g for g in c.goals(ins, outs) if g.kind in ('real', 'auto', 'autol') and g.rhs is not None and g.lhs.sort == 'f']
    reqs = c.reqs(ins)
    boxes = [(tol, BOXES[b](c, ins)) for b, tol in c.rounding.items()]
    ps = [p for p in c.params if p.mode != 'out']
    f32 = lambda x: float(np.float32(x))
    end = time.time() + limit
    tried = 0

    ranges = []
    for tol, hy in boxes:
        d = {}
        for h in hy or ():
            for x in (h.args if h.op == 'and' else (h,)):
                if x.op == 'fle' and x.args[0].op == 'c' and x.args[1].op == 'v': d.setdefault(x.args[1], [-2., 2.])[0] = float(fval(x.args[0]))
                if x.op == 'fle' and x.args[1].op == 'c' and x.args[0].op == 'v': d.setdefault(x.args[0], [-2., 2.])[1] = float(fval(x.args[1]))
        if d: ranges.append(d)

    def draw():
        k = rng.random()
        if ranges and rng.random() < .4:
            d = rng.choice(ranges)
            vals = {}
            for p in ps:
                if p.kind != 'f':
                    vals[p.name] = [rng.choice((0, 1)) for _ in range(p.count)]
                    continue
                v = [rng.uniform(*d.get(t, (-2., 2.))) for t in ins[p.name]]
                m = rng.random()
                if m < .25: v = [x * 10.0 ** -rng.uniform(0, 6) if d.get(t, (-2., 2.))[0] <= 0 <= d.get(t, (-2., 2.))[1] else x for x, t in zip(v, ins[p.name])]
                if m < .5 and p.count in (3, 4) and c.requires:      # unit vectors, close to an axis too
                    e = 10.0 ** -rng.uniform(0, 6)
                    i = rng.randrange(p.count) if rng.random() < .5 else p.count - 1
                    v = [(1 if j == i else e) * (x or 1) for j, x in enumerate(v)]
                    n = math.sqrt(sum(x * x for x in v))
                    v = [x / n for x in v]
                vals[p.name] = [f32(x) for x in v]
            return vals
        if c.sample is not None and (c.requires or k < .3):
            r = c.sample(rng)
            if isinstance(r, dict): r = [r[p.name] for p in ps]
            vals = {p.name: [float(x) if p.kind == 'f' else x for x in (v if isinstance(v, (list, tuple)) else [v])] for p, v in zip(ps, r)}
        else:
            vals, m = {}, rng.random()
            for j, p in enumerate(ps):
                if p.kind != 'f': vals[p.name] = [rng.choice((0, 1)) for _ in range(p.count)]
                elif p.type.startswith('mat') and m < .3:
                    n = int(p.type[3])
                    vals[p.name] = [float(i % (n + 1) == 0) + rng.uniform(-.05, .05) for i in range(p.count)]
                elif m < .4: vals[p.name] = [rng.uniform(.5, 2) for _ in range(p.count)]
                elif m < .5 and p.type == 'float': vals[p.name] = [1 + 2 * j + rng.uniform(0, .5)]
                else: vals[p.name] = [rng.uniform(-1, 1) * rng.choice((1, 1, 1e-3)) for _ in range(p.count)]
        if rng.random() < .5:                  # two arguments that nearly agree
            same = [(p, q) for p in ps for q in ps if p is not q and p.type == q.type and p.kind == 'f']
            if same:
                p, q = rng.choice(same)
                e = 10.0 ** rng.uniform(-6, -2)
                vals[p.name] = [x + rng.uniform(-e, e) for x in vals[q.name]]
        return {p.name: [f32(x) if p.kind == 'f' else x for x in vals[p.name]] for p in ps}

    while time.time() < end:
        vals = draw()
        env = envof(c, ins, vals)
        tried += 1
        try:
            if not reqs_ok(c, ins, reqs, env, True, 1e-6): continue
            tols = [t for t, hy in boxes if hy and all(evalF([h], env)[0] for h in hy)]
        except (EvalError, TypeError): continue
        if not tols: continue
        ta = min([t[0] for t in tols if t[0] is not None], default=None)
        tq = min([t[1] for t in tols if t[1] is not None], default=None)
        st, res = runner.call(c, vals)
        if st == 'crash': continue
        e2 = dict(env)
        for p in params_of(c):
            if p.mode == 'in' and p is not c.ret: continue
            for t, v in zip(outs[p.name], res[p.name]): e2[t] = v
        for g in goals:
            try:
                if g.hyps: continue
                if not all(math.isfinite(float(v)) for t, v in e2.items() if t.sort == 'f'): continue
                a, b = evalR([g.lhs, g.rhs], {t: (mpf(float(v)) if t.sort == 'f' else v) for t, v in e2.items()})
            except (EvalError, ZeroDivisionError, OverflowError, ValueError, TypeError): continue
            d = abs(a - b)
            if (ta is not None and d > ta) or (tq is not None and g.lhs.op == 'v' and d > tq * abs(b) + 1e-36):
                from .driver import hexvals
                return {'inputs': show_vals(vals), 'bits': hexvals(c, vals), 'goal': g.name + ' (rounding error)', 'observed': show_vals(a), 'expected': '%s within %s absolute / %s relative' % (show_vals(b), ta, tq), 'outputs': show_vals(res), 'tried': tried}
    return None
