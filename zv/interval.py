"""Back end I: sound interval analysis of binary32/binary64 terms (path-sensitive, with NaN and infinity tracking).

Rounding to nearest is monotone, so computing with the end points in the arithmetic of the term itself gives the exact
range of every single operation; libm results are widened by ULPS units in the last place and kept inside the
mathematical range of the function (trusted: see TRUST).  Decides goals such as  not isnan(r)  or  r <= 1  that depend on
rounding and that real arithmetic cannot see.  A goal that is not definitely true stays undecided here.
"""
import math, time
from fractions import Fraction
import numpy as np
from .terms import *
from .evalt import libm

ULPS = 4
DOMAIN = {'sqrt': (0, float('inf')), 'asin': (-1, 1), 'acos': (-1, 1), 'log': (0, float('inf')), 'log2': (0, float('inf'))}
TRUST = 'libm functions are within %d ulp of the mathematical function, inside its range, monotone up to that, and NaN exactly outside its domain (used by interval obligations only)' % ULPS
FT = {'f': np.float32, 'd': np.float64}
INF = float('inf')
np.seterr(all='ignore')


class Budget(Exception): pass


class Iv:
    __slots__ = ('lo', 'hi', 'nan')

    def __init__(self, lo, hi, nan=False): self.lo, self.hi, self.nan = lo, hi, nan
    def empty(self): return not (self.lo <= self.hi)
    def __repr__(self): return '[%r,%r]%s' % (float(self.lo), float(self.hi), '?' if self.nan else '')


def top(s): return Iv(FT[s](-INF), FT[s](INF), True)
def join(a, b):
    if a.empty(): return Iv(b.lo, b.hi, a.nan or b.nan)
    if b.empty(): return Iv(a.lo, a.hi, a.nan or b.nan)
    return Iv(min(a.lo, b.lo), max(a.hi, b.hi), a.nan or b.nan)
def meet(a, b): return Iv(max(a.lo, b.lo), min(a.hi, b.hi), a.nan and b.nan)


def none(s, nan): return Iv(FT[s](1), FT[s](0), nan)


def nxt(x, up, s, n=1):
    for _ in range(n): x = np.nextafter(FT[s](x), FT[s](INF if up else -INF))
    return x


def corners(f, a, b, s, nan):
    """range of a monotone-in-each-argument operation over a box; NaN corners come from inf-inf, 0*inf, 0/0, inf/inf"""
    vs = []
    for x in (a.lo, a.hi):
        for y in (b.lo, b.hi):
            v = f(x, y)
            if v != v: return Iv(FT[s](-INF), FT[s](INF), True)
            vs.append(v)
    return Iv(min(vs), max(vs), nan)


MONO = {'asin': (-1, 1, 1), 'atan': (-INF, INF, 1), 'sinh': (-INF, INF, 1), 'tanh': (-INF, INF, 1), 'asinh': (-INF, INF, 1), 'exp': (-INF, INF, 1), 'exp2': (-INF, INF, 1),
        'cbrt': (-INF, INF, 1), 'acos': (-1, 1, -1), 'log': (0, INF, 1), 'log2': (0, INF, 1), 'log10': (0, INF, 1), 'acosh': (1, INF, 1), 'atanh': (-1, 1, 1)}
RANGE = {'asin': (-1.5707964, 1.5707964), 'atan': (-1.5707964, 1.5707964), 'tanh': (-1, 1), 'exp': (0, INF), 'exp2': (0, INF), 'acos': (0, 3.1415928), 'acosh': (0, INF)}
ZEROEXACT = ('asin', 'atan', 'sinh', 'tanh', 'asinh', 'cbrt', 'atanh')


def clampr(lo, hi, r, s):
    return max(FT[s](lo), FT[s](r[0])), min(FT[s](hi), FT[s](r[1]))


def sincos(name, a, s):
    if not (math.isfinite(a.lo) and math.isfinite(a.hi)): return Iv(FT[s](-1), FT[s](1), True)
    lo, hi = float(a.lo), float(a.hi)
    if hi - lo >= 6.2 or abs(lo) > 1e5 or abs(hi) > 1e5: return Iv(FT[s](-1), FT[s](1), a.nan)
    f = math.sin if name == 'sin' else math.cos
    off = math.pi / 2 if name == 'sin' else 0.0
    v = [f(lo), f(hi)]
    # maxima of the function at off + 2k pi, minima at off + pi + 2k pi (margins cover the rounding of these)
    def hits(p):
        k = math.floor((lo - p - 1e-9) / (2 * math.pi))
        return any(lo - 1e-9 <= p + 2 * math.pi * (k + j) <= hi + 1e-9 for j in (0, 1, 2))
    l, h = min(v), max(v)
    if hits(off): h = 1.0
    if hits(off + math.pi): l = -1.0
    def out(x, up):
        x = FT[s](x)
        return x if abs(x) == 1 and abs(float(x)) == 1.0 and (l == -1.0 or h == 1.0) and ((up and h == 1.0) or (not up and l == -1.0)) else nxt(x, up, s, ULPS)
    l, h = clampr(out(l, False), out(h, True), (-1, 1), s)
    return Iv(l, h, a.nan)


def fn_iv(name, As, s):
    a = As[0]
    nan = any(x.nan for x in As)
    if name in ('fmin', 'fmax') and (a.empty() or As[1].empty()):
        b = As[1]
        r = none(s, a.nan and b.nan)
        if a.nan: r = join(r, Iv(b.lo, b.hi))
        if b.nan: r = join(r, Iv(a.lo, a.hi))
        return r
    if name == 'copysign':
        b = As[1]
        if a.empty(): return none(s, a.nan)
        if b.empty(): b = Iv(FT[s](-1), FT[s](1), True)
        m = fn_iv('fabs', [Iv(a.lo, a.hi)], s)
        lo = m.lo if b.lo > 0 and not b.nan else -m.hi
        hi = -m.lo if b.hi < 0 and not b.nan else m.hi
        return Iv(lo, hi, a.nan)
    if name == 'pow':
        b = As[1]
        if not nan and not a.empty() and not b.empty() and (a.lo > 0 or a.lo >= 0 and b.lo >= 0):
            # x^y for x >= 0 is monotone in each argument on either side of 1 and of 0: the corners bound it
            xs = [a.lo, a.hi] + ([FT[s](1)] if a.lo < 1 < a.hi else [])
            ys = [b.lo, b.hi] + ([FT[s](0)] if b.lo < 0 < b.hi else [])
            g = libm('pow', s, 2)
            vs = [FT[s](g(float(x), float(y))) for x in xs for y in ys]
            if any(v != v for v in vs): return top(s)
            lo, hi = min(vs), max(vs)
            lo = max(FT[s](0), nxt(lo, False, s, ULPS)) if math.isfinite(lo) else lo
            hi = nxt(hi, True, s, ULPS) if math.isfinite(hi) else hi
            if b.lo == b.hi == 0 or a.lo == a.hi == 1: lo = hi = FT[s](1)
            return Iv(lo, hi, False)
        return top(s)
    if any(x.empty() for x in As): return none(s, nan)
    if name == 'fabs':
        if a.lo >= 0: return Iv(a.lo, a.hi, nan)
        if a.hi <= 0: return Iv(-a.hi, -a.lo, nan)
        return Iv(FT[s](0), max(-a.lo, a.hi), nan)
    if name in ('floor', 'ceil', 'trunc', 'rint'): 
        f = {'floor': np.floor, 'ceil': np.ceil, 'trunc': np.trunc, 'rint': np.rint}[name]
        return Iv(f(a.lo), f(a.hi), nan)
    if name == 'round':
        f = lambda x: FT[s](math.copysign(math.floor(abs(float(x)) + .5), float(x))) if math.isfinite(x) and abs(x) < 1e15 else x
        return Iv(f(a.lo), f(a.hi), nan)
    if name == 'sqrt':
        if a.hi < 0: return none(s, True)
        return Iv(np.sqrt(max(a.lo, FT[s](0))), np.sqrt(a.hi), nan or a.lo < 0)
    if name in ('fmin', 'fmax'):
        b = As[1]
        f = min if name == 'fmin' else max
        r = Iv(f(a.lo, b.lo), f(a.hi, b.hi), a.nan and b.nan)
        if a.nan: r = join(r, Iv(b.lo, b.hi))
        if b.nan: r = join(r, Iv(a.lo, a.hi))
        return r
    if name in ('fma', 'muladd'):
        if not all(math.isfinite(v) for x in As for v in (x.lo, x.hi)): return Iv(FT[s](-INF), FT[s](INF), True)
        p, c = corners(lambda x, y: FT[s](x) * FT[s](y), a, As[1], s, nan), As[2]
        q = corners(lambda x, y: x + y, p, c, s, nan)
        e = max(abs(float(p.lo)), abs(float(p.hi)), abs(float(q.lo)), abs(float(q.hi)))
        return Iv(nxt(nxt(q.lo, False, s, 2) - FT[s](e * 2e-7), False, s), nxt(nxt(q.hi, True, s, 2) + FT[s](e * 2e-7), True, s), q.nan)
    if name in MONO:
        l, h, d = MONO[name]
        nan = nan or a.lo < l or a.hi > h
        x, y = max(a.lo, FT[s](l)), min(a.hi, FT[s](h))
        if not x <= y: return none(s, True)
        if d < 0: x, y = y, x
        g = libm(name, s, 1)
        def w(v, up):
            r = FT[s](g(float(v)))
            if name in ZEROEXACT and v == 0: return FT[s](0)
            if not math.isfinite(r): return r
            return nxt(r, up, s, ULPS)
        lo, hi = w(x, False), w(y, True)
        if name in RANGE: lo, hi = clampr(lo, hi, RANGE[name], s)
        if name in ZEROEXACT:
            if a.lo >= 0: lo = max(lo, FT[s](0))
            if a.hi <= 0: hi = min(hi, FT[s](0))
        return Iv(lo, hi, nan)
    if name in ('sin', 'cos'): return sincos(name, a, s)
    if name == 'tan':
        if math.isfinite(a.lo) and math.isfinite(a.hi) and -1.57 < a.lo and a.hi < 1.57:
            return Iv(nxt(FT[s](math.tan(float(a.lo))), False, s, ULPS), nxt(FT[s](math.tan(float(a.hi))), True, s, ULPS), nan)
        return Iv(FT[s](-INF), FT[s](INF), nan or not (math.isfinite(a.lo) and math.isfinite(a.hi)))
    if name == 'cosh':
        m = fn_iv('fabs', [a], s)
        f = lambda v: FT[s](math.cosh(float(v))) if abs(v) < 80 else FT[s](INF)
        return Iv(max(FT[s](1), nxt(f(m.lo), False, s, ULPS)), nxt(f(m.hi), True, s, ULPS), nan)
    if name == 'atan2': 
        lo, hi = (FT[s](-3.1415928), FT[s](3.1415928))
        x = As[1]
        if x.lo > 0: lo, hi = FT[s](-1.5707964), FT[s](1.5707964)
        if a.lo > 0: lo = FT[s](0)
        if a.hi < 0: hi = FT[s](0)
        return Iv(lo, hi, nan)
    return top(s)


class An:
    def __init__(self, limit=20000, deadline=None):
        self.left, self.deadline = limit, deadline
        self.memo = {}
        self.nctx = 0
        self.lin = 20

    # contexts: (dict term -> Iv, dict bool term -> bool, id)
    def ctx(self, iv, bl):
        self.nctx += 1
        return iv, bl, self.nctx

    def ev(self, t, C):
        key = (t, C[2])
        r = self.memo.get(key)
        if r is not None: return r
        self.left -= 1
        if self.left < 0 or (self.deadline and time.time() > self.deadline): raise Budget()
        r = self.ev1(t, C)
        if t in C[0]: r = meet(r, C[0][t])
        if t.op in ('fmul', 'fdiv') and not r.empty():
            b = self.ratio(t, C)
            if b is not None: r = Iv(max(r.lo, -b), min(r.hi, b), r.nan)
        self.memo[key] = r
        return r

    def ev1(self, t, C):
        s, op = t.sort, t.op
        if op == 'c':
            v = FT[s](fval(t))
            return none(s, True) if v != v else Iv(v, v)
        if op == 'v': return top(s)
        if op == 'fneg':
            a = self.ev(t.args[0], C)
            return Iv(-a.hi, -a.lo, a.nan)
        if op == 'ite':
            c, x, y = t.args
            ct, cf = self.bl(c, C)
            r = none(s, False)
            for ok, val, br in ((ct, True, x), (cf, False, y)):
                if not ok: continue
                D = self.assume(c, val, C)
                if D is not None: r = join(r, self.ev(br, D))
            return r
        if op in ('fadd', 'fmul', 'fdiv'):
            a, b = self.ev(t.args[0], C), self.ev(t.args[1], C)
            nan = a.nan or b.nan
            if a.empty() or b.empty(): return none(s, nan)
            if op == 'fadd':
                lo, hi = a.lo + b.lo, a.hi + b.hi
                if (a.lo == -INF and b.hi == INF) or (a.hi == INF and b.lo == -INF): nan = True
                return Iv(lo if lo == lo else FT[s](-INF), hi if hi == hi else FT[s](INF), nan)
            if op == 'fmul':
                if t.args[0] is t.args[1]:
                    m = self.evabs(t.args[0], C)
                    if m.empty(): return none(s, nan)
                    return Iv(m.lo * m.lo, m.hi * m.hi, nan)
                z0 = (a.lo <= 0 <= a.hi and (b.lo == -INF or b.hi == INF)) or (b.lo <= 0 <= b.hi and (a.lo == -INF or a.hi == INF))
                vs = [v for v in (a.lo * b.lo, a.lo * b.hi, a.hi * b.lo, a.hi * b.hi)]
                if any(v != v for v in vs): return Iv(FT[s](-INF), FT[s](INF), True)
                return Iv(min(vs), max(vs), nan or z0)
            if t.args[0] is t.args[1] and not (a.lo <= 0 <= a.hi) and math.isfinite(a.lo) and math.isfinite(a.hi): return Iv(FT[s](1), FT[s](1), nan)
            if b.lo <= 0 <= b.hi:
                zz = a.lo <= 0 <= a.hi
                ii = (a.lo == -INF or a.hi == INF) and (b.lo == -INF or b.hi == INF)
                return Iv(FT[s](-INF), FT[s](INF), nan or zz or ii)
            ii = (a.lo == -INF or a.hi == INF) and (b.lo == -INF or b.hi == INF)
            vs = [a.lo / b.lo, a.lo / b.hi, a.hi / b.lo, a.hi / b.hi]
            if any(v != v for v in vs): return Iv(FT[s](-INF), FT[s](INF), True)
            return Iv(min(vs), max(vs), nan or ii)
        if op == 'fpext':
            a = self.ev(t.args[0], C)
            return Iv(np.float64(a.lo), np.float64(a.hi), a.nan)
        if op == 'fptrunc':
            a = self.ev(t.args[0], C)
            return Iv(np.float32(a.lo), np.float32(a.hi), a.nan)
        if op == 'fn':
            As = [self.ev(x, C) for x in t.args[1:]]
            d = DOMAIN.get(t.args[0])
            if d and not As[0].empty() and not As[0].nan and math.isfinite(As[0].lo) and math.isfinite(As[0].hi):
                # linear relations between the operands may keep the argument inside the domain
                x, a = t.args[1], As[0]
                if a.lo < d[0] and a.hi >= d[0]:
                    for b in (d[0] + .875, d[0] + .5, d[0] + 1e-4, d[0]):
                        if b < a.hi and self.linear(x, b, False, C):
                            As[0] = a = Iv(FT[s](b), a.hi)
                            break
                if a.hi > d[1] and a.lo <= d[1] and self.linear(x, d[1], True, C): As[0] = a = Iv(a.lo, FT[s](d[1]))
            return fn_iv(t.args[0], As, s)
        if op in ('sitofp', 'uitofp'):
            n = t.args[0].sort
            if n == 'b': return Iv(FT[s](-1 if op == 'sitofp' else 0), FT[s](0 if op == 'sitofp' else 1))
            return Iv(FT[s](-2.0 ** (n - 1) if op == 'sitofp' else 0), FT[s](2.0 ** (n - 1) if op == 'sitofp' else 2.0 ** n))
        return top(s)

    def evabs(self, t, C):
        """range of |t|"""
        if t.op == 'fneg': return self.evabs(t.args[0], C)
        if t.op == 'ite':
            ct, cf = self.bl(t.args[0], C)
            r = none(t.sort, False)
            for ok, val, br in ((ct, True, t.args[1]), (cf, False, t.args[2])):
                D = self.assume(t.args[0], val, C) if ok else None
                if D is not None: r = join(r, self.evabs(br, D))
        else:
            r = fn_iv('fabs', [self.ev(t, C)], t.sort)
            g = C[0].get(fn('fabs', t))
            if g is not None: r = meet(r, Iv(g.lo, g.hi, True))
        return r

    def dom(self, x, y, C):
        """|x| <= y * (1 + k 2^-24) for all machine values in the context: returns k, or None"""
        if x.op == 'fneg': return self.dom(x.args[0], y, C)
        a, b = self.ev(x, C), self.ev(y, C)
        if a.nan or b.nan or a.empty() or b.empty() or not (math.isfinite(a.lo) and math.isfinite(a.hi)) or not b.lo >= 0: return None
        if y.op == 'fn' and y.args[0] == 'fabs' and y.args[1] in (x, fneg(x)): return 0
        if y is x: return 0
        if y.op == 'fadd':
            p, q = y.args
            for p, q in (y.args, y.args[::-1]):
                if self.ev(q, C).lo >= 0:
                    k = self.dom(x, p, C)
                    if k is not None: return k
        if y.op == 'fn' and y.args[0] == 'sqrt' and b.lo > 1e-17 and b.hi < 1e18 and self.has_square(x, y.args[1], C): return 3
        return None

    def has_square(self, x, z, C):
        if z.op == 'fmul' and z.args[0] is z.args[1] and z.args[0] in (x, fneg(x)): return True
        if z.op == 'fadd':
            return all(self.ev(q, C).lo >= 0 for q in z.args) and any(self.has_square(x, q, C) for q in z.args)
        return False

    def ratio(self, t, C):
        """bound on |x / y| and |x * (c / y)| for |x| <= y: correctly rounded, so at most the rounding of c (1 + k u)"""
        s = t.sort
        if s != 'f': return None
        def up(c, k): return FT[s](c) if k == 0 else nxt(FT[s](c), True, s, k)
        if t.op == 'fdiv':
            k = self.dom(t.args[0], t.args[1], C)
            if k is not None and self.ev(t.args[1], C).lo > 0: return up(1, k)
        if t.op == 'fmul':
            for x, r in (t.args, t.args[::-1]):
                if r.op == 'fdiv' and r.args[0].op == 'c' and 1e-3 < fval(r.args[0]) < 1e3:
                    c, y = fval(r.args[0]), self.ev(r.args[1], C)
                    if not (1e-30 < y.lo and y.hi < 1e30): continue
                    k = self.dom(x, r.args[1], C)
                    # x * fl(c/y) <= c (1 + u): halfway to the next float when c is a power of two, which rounds to c
                    if k is not None: return up(c, k if k == 0 and math.frexp(c)[0] == .5 else k + 2)
        return None

    def linear(self, x, bound, upper, C):
        """x <= bound (upper) or x >= bound for all machine values in the context: linear arithmetic over the reals, every
        rounding an unknown error within half a unit in the last place of the largest magnitude of its result"""
        import z3
        if self.lin <= 0 or x.op in ('v', 'c', 'fn'): return False
        self.lin -= 1
        sol = z3.Solver()
        sol.set('timeout', 3000)
        memo = {}
        n = [0]

        def fresh(iv):
            n[0] += 1
            v = z3.Real('e%d' % n[0])
            sol.add(v >= q(iv.lo), v <= q(iv.hi))
            return v

        def q(v):
            fr = Fraction(float(v))
            return z3.Q(fr.numerator, fr.denominator)

        def num(t):
            if t in memo: return memo[t]
            iv = self.ev(t, C)
            if iv.nan or iv.empty() or not (math.isfinite(iv.lo) and math.isfinite(iv.hi)): raise Budget()
            s, op = t.sort, t.op
            r = None
            m = max(abs(float(iv.lo)), abs(float(iv.hi)))
            u = Fraction(m) * (Fraction(1, 2 ** 23) if s == 'f' else Fraction(1, 2 ** 52)) + Fraction(1, 2 ** 140)
            def err(): return fresh(Iv(-float(u) * 1.01, float(u) * 1.01))
            if op == 'c': r = q(fval(t))
            elif op == 'fneg': r = -num(t.args[0])
            elif op == 'fadd': r = num(t.args[0]) + num(t.args[1]) + err()
            elif op == 'fmul' and any(a.op == 'c' for a in t.args):
                k, a = (t.args if t.args[0].op == 'c' else t.args[::-1])
                r = q(fval(k)) * num(a) + err()
            elif op == 'fdiv' and t.args[1].op == 'c' and fval(t.args[1]) != 0: r = num(t.args[0]) / q(fval(t.args[1])) + err()
            elif op == 'ite': r = z3.If(cond(t.args[0]), num(t.args[1]), num(t.args[2]))
            elif op == 'fpext': r = num(t.args[0])
            elif op == 'fptrunc': r = num(t.args[0]) + fresh(Iv(-m * 2.0 ** -23 - 1e-40, m * 2.0 ** -23 + 1e-40))
            elif op == 'fn' and t.args[0] == 'fabs':
                a = num(t.args[1])
                r = z3.If(a >= 0, a, -a)
            elif op == 'fn' and t.args[0] in ('fmin', 'fmax'):
                a, b = num(t.args[1]), num(t.args[2])
                r = z3.If(a <= b, a, b) if t.args[0] == 'fmin' else z3.If(a <= b, b, a)
            if r is None: r = fresh(iv)
            else:
                v = fresh(iv)
                sol.add(v == r)
                r = v
            memo[t] = r
            return r

        def cond(c):
            if ('b', c) in memo: return memo[('b', c)]
            if c.op == 'c': r = z3.BoolVal(c.args[0])
            elif c.op == 'not': r = z3.Not(cond(c.args[0]))
            elif c.op == 'and': r = z3.And(*[cond(x) for x in c.args])
            elif c.op == 'ite': r = z3.If(cond(c.args[0]), cond(c.args[1]), cond(c.args[2]))
            elif c.op in ('flt', 'fle', 'feq'):
                a, b = num(c.args[0]), num(c.args[1])
                r = a < b if c.op == 'flt' else a <= b if c.op == 'fle' else a == b
            else:
                n[0] += 1
                r = z3.Bool('b%d' % n[0])
            memo[('b', c)] = r
            return r
        try:
            g = num(x)
            for c, v in C[1].items():
                if c.op in ('flt', 'fle'):
                    try: sol.add(cond(c) if v else z3.Not(cond(c)))
                    except Budget: pass
            sol.add(g > q(bound) if upper else g < q(bound))
            return sol.check() == z3.unsat
        except Budget: return False

    # booleans: (may be true, may be false)
    def bl(self, t, C):
        if t.op == 'c': return (t.args[0], not t.args[0])
        v = C[1].get(t)
        if v is not None: return (v, not v)
        key = (t, C[2])
        r = self.memo.get(key)
        if r is None:
            self.left -= 1
            if self.left < 0: raise Budget()
            r = self.memo[key] = self.bl1(t, C)
        return r

    def bl1(self, t, C):
        op = t.op
        if op == 'not':
            a, b = self.bl(t.args[0], C)
            return b, a
        if op == 'and':
            rs = [self.bl(x, C) for x in t.args]
            if any(not a for a, _ in rs): return (False, True)
            # assume the parts one after the other: the conjunction may still be impossible or certain
            D = C
            for x in t.args:
                D = self.assume(x, True, D)
                if D is None: return (False, True)
            return (True, any(b for _, b in rs))
        if op == 'ite':
            c = self.bl(t.args[0], C)
            r = (False, False)
            for ok, val, br in ((c[0], True, t.args[1]), (c[1], False, t.args[2])):
                if not ok: continue
                D = self.assume(t.args[0], val, C)
                if D is None: continue
                x = self.bl(br, D)
                r = (r[0] or x[0], r[1] or x[1])
            return r
        if op == 'isnan':
            a = self.ev(t.args[0], C)
            return (a.nan, not a.empty())
        if op in ('flt', 'fle', 'feq'):
            a, b = self.ev(t.args[0], C), self.ev(t.args[1], C)
            if a.empty() or b.empty(): return (False, True)
            nan = a.nan or b.nan
            if op == 'flt': return (a.lo < b.hi, nan or a.hi >= b.lo)
            if op == 'fle': return (a.lo <= b.hi, nan or a.hi > b.lo)
            return (a.lo <= b.hi and b.lo <= a.hi, nan or not (a.lo == a.hi == b.lo == b.hi))
        return (True, True)

    def assume(self, c, val, C):
        """context with c == val added, None when that is impossible"""
        key = (c, val, C[2])
        if key not in self.memo:
            iv, bl = dict(C[0]), dict(C[1])
            self.memo[key] = self.ctx(iv, bl) if self.add(c, val, iv, bl, C) else None
        return self.memo[key]

    def tight(self, t, new, iv, C):
        cur = meet(self.ev(t, C), iv[t]) if t in iv else self.ev(t, C)
        r = meet(cur, new)
        if r.empty() and not r.nan: return False
        iv[t] = r
        s = t.sort
        # push outwards-rounded consequences to the operands
        if not r.nan and not r.empty():
            if t.op == 'fneg': return self.tight(t.args[0], Iv(-r.hi, -r.lo), iv, C)
            if t.op == 'fn' and t.args[0] == 'fabs' and math.isfinite(r.hi): return self.tight(t.args[1], Iv(-r.hi, r.hi), iv, C)
            if t.op == 'fn' and t.args[0] == 'sqrt': return self.tight(t.args[1], Iv(FT[s](0) if r.lo <= 0 else nxt(r.lo * r.lo, False, s, 3), nxt(r.hi * r.hi, True, s, 3)), iv, C)
            if t.op == 'fmul' and t.args[0] is t.args[1]:
                m = nxt(np.sqrt(max(r.hi, FT[s](1e-37 if s == 'f' else 1e-300))), True, s, 2)
                return self.tight(t.args[0], Iv(-m, m), iv, C)
            if t.op == 'fadd':
                for x, y in (t.args, t.args[::-1]):
                    o = self.ev(y, C)
                    if o.empty() or o.nan: continue
                    w = max(abs(float(r.lo)), abs(float(r.hi)), abs(float(o.lo)), abs(float(o.hi)))
                    if not math.isfinite(w): continue
                    e = w * (2.0 ** -22 if s == 'f' else 2.0 ** -51)
                    if not self.tight(x, Iv(nxt(FT[s](float(r.lo) - float(o.hi) - e), False, s, 2), nxt(FT[s](float(r.hi) - float(o.lo) + e), True, s, 2), False), iv, C): return False
            if t.op == 'ite': pass
        return True

    def add(self, c, val, iv, bl, C):
        if c.op == 'c': return c.args[0] == val
        bl[c] = val
        if c.op == 'not': return self.add(c.args[0], not val, iv, bl, C)
        if c.op == 'and':
            if val: return all(self.add(x, True, iv, bl, C) for x in c.args)
            und = [x for x in c.args if self.bl(x, C)[1]]
            if not und: return False
            if len(und) == 1 and all(not self.bl(x, C)[1] for x in c.args if x is not und[0]): return self.add(und[0], False, iv, bl, C)
            return True
        if c.op == 'isnan':
            a = self.ev(c.args[0], C)
            if val: return a.nan and (iv.__setitem__(c.args[0], none(c.args[0].sort, True)) or True)
            return self.tight(c.args[0], Iv(FT[c.args[0].sort](-INF), FT[c.args[0].sort](INF), False), iv, C)
        if c.op in ('flt', 'fle', 'feq'):
            x, y = c.args
            s = x.sort
            a, b = self.ev(x, C), self.ev(y, C)
            mn, mx = FT[s](-INF), FT[s](INF)
            if val:
                if a.empty() or b.empty(): return False
                if c.op == 'feq': return self.tight(x, Iv(b.lo, b.hi), iv, C) and self.tight(y, Iv(a.lo, a.hi), iv, C)
                st = c.op == 'flt'
                if st and (b.hi == -INF or a.lo == INF): return False
                return self.tight(x, Iv(mn, nxt(b.hi, False, s) if st else b.hi), iv, C) and self.tight(y, Iv(nxt(a.lo, True, s) if st else a.lo, mx), iv, C)
            if c.op == 'feq': return True
            if a.empty() or b.empty(): return True
            # not (x < y): x >= y, or one is NaN; when the other cannot be NaN only its own NaN survives
            st = c.op == 'fle'
            if not b.nan:
                if st and b.lo == INF: 
                    if not a.nan: return False
                elif not self.tight(x, Iv(nxt(b.lo, True, s) if st else b.lo, mx, a.nan), iv, C): return False
            if not a.nan:
                if st and a.hi == -INF:
                    if not b.nan: return False
                elif not self.tight(y, Iv(mn, nxt(a.hi, False, s) if st else a.hi, b.nan), iv, C): return False
            return True
        return True


def cases(hyps, limit=64):
    """disjunctive hypotheses split into cases"""
    out = [[]]
    for h in hyps:
        if h.op == 'not' and h.args[0].op == 'and' and len(out) * len(h.args[0].args) <= limit:
            out = [o + [NOT(x)] for o in out for x in h.args[0].args]
        else: out = [o + [h] for o in out]
    return out


SECONDS = [5.0]


def prove(hyps, goal, seconds=None, boxes=None):
    """True when goal holds for all machine values satisfying hyps (definitely), else False"""
    seconds = seconds or SECONDS[0]
    boxes = boxes or int(80 * seconds)
    end = time.time() + seconds
    flat = []
    for h in hyps: flat += list(h.args) if h.op == 'and' else [h]
    try:
        for cs in cases(flat):
            if not case(cs, goal, end, [boxes]): return False
        return True
    except (Budget, RecursionError, OverflowError, ValueError): return False


def case(hyps, goal, end, boxes):
    an = An(200000, end)
    C = an.ctx({}, {})
    for _ in range(2):
        for h in hyps:
            C = an.assume(h, True, C)
            if C is None: return True
    return split(hyps, goal, C[0], end, boxes, an)


def split(hyps, goal, iv, end, boxes, an, depth=0):
    boxes[0] -= 1
    if boxes[0] < 0 or time.time() > end: return False
    an = An(60000, end)
    C = an.ctx(dict(iv), {})
    for h in hyps:
        C = an.assume(h, True, C)
        if C is None: return True
    t, f = an.bl(goal, C)
    if not f: return True
    if not t and all(not an.bl(h, an.ctx(dict(iv), {}))[1] for h in hyps): return False
    if depth > 24: return False
    # a condition that selects several values at once: follow its two outcomes separately
    cnt = {}
    for x in subterms([goal]):
        if x.op == 'ite' and x.sort in ('f', 'd'): cnt[x.args[0]] = cnt.get(x.args[0], 0) + 1
    cnt = [(n, -c.id, c) for c, n in cnt.items() if n >= 2 and all(an.bl(c, C))]
    if cnt:
        c = max(cnt)[2]
        for h in (c, NOT(c)):
            D = an.assume(h, True, C)
            if D is not None and not split(hyps + [h], goal, D[0], end, boxes, an, depth + 1): return False
        return True
    # bisect the widest bounded variable
    best, w = None, 0
    fv = free_vars(goal)
    if len(fv) > 6: return False
    for x in fv:
        r = iv.get(x)
        if r is None or r.empty() or not (math.isfinite(r.lo) and math.isfinite(r.hi)): continue
        d = float(r.hi) - float(r.lo)
        if d > w and r.lo < r.hi and nxt(r.lo, True, x.sort) < r.hi: best, w = x, d
    if best is None: return False
    r = iv[best]
    m = FT[best.sort]((float(r.lo) + float(r.hi)) / 2)
    for a, b in ((r.lo, m), (nxt(m, True, best.sort), r.hi)):
        d = dict(iv)
        d[best] = Iv(a, b, r.nan)
        an2 = An(60000, end)
        D = an2.ctx({k: v for k, v in d.items() if k.op == 'v'}, {})
        ok = True
        for h in hyps:
            D = an2.assume(h, True, D)
            if D is None:
                ok = False
                break
        if ok and not split(hyps, goal, D[0], end, boxes, an2, depth + 1): return False
    return True
