"""Sparse multivariate polynomials over Q with packed monomials, and rational functions with factored denominators."""
from fractions import Fraction
from functools import reduce
from math import gcd

W = 16                      # bits per exponent
MASK = (1 << W) - 1


def cn(c):
    return c.numerator if isinstance(c, Fraction) and c.denominator == 1 else c


def const(c): return {0: cn(c)} if c else {}
def gen(i, e=1): return {e << (W * i): 1}


def exp_of(m, i): return (m >> (W * i)) & MASK


def gens_of(p):
    m = 0
    for k in p: m |= k
    out, i = [], 0
    while m:
        if m & MASK: out.append(i)
        m >>= W
        i += 1
    return out


def padd(a, b):
    if len(a) < len(b): a, b = b, a
    r = dict(a)
    for m, c in b.items():
        v = r.get(m)
        if v is None: r[m] = c
        else:
            v = v + c
            if v: r[m] = v
            else: del r[m]
    return r


def pneg(a): return {m: -c for m, c in a.items()}
def psub(a, b): return padd(a, pneg(b))


def pscale(a, c):
    if not c: return {}
    if c == 1: return a
    return {m: cn(v * c) for m, v in a.items()}


class TooBig(Exception):
    pass


LIMIT = [400000]


def pmul(a, b):
    if len(a) < len(b): a, b = b, a
    if not b: return {}
    if len(b) == 1:
        (m2, c2), = b.items()
        if m2 == 0: return pscale(a, c2)
        return {m + m2: cn(c * c2) for m, c in a.items()}
    if len(a) * len(b) > 40 * LIMIT[0]: raise TooBig()
    r = {}
    get = r.get
    for m2, c2 in b.items():
        for m, c in a.items():
            k = m + m2
            r[k] = get(k, 0) + c * c2
    if len(r) > LIMIT[0]: raise TooBig()
    return {m: cn(c) for m, c in r.items() if c}


def ppow(a, n):
    r = {0: 1}
    for _ in range(n): r = pmul(r, a)
    return r


def isconst(p): return not p or (len(p) == 1 and 0 in p)
def cval(p): return p.get(0, 0)


def monocontent(p):
    """largest monomial dividing p"""
    ks = list(p)
    if not ks: return 0
    r = 0
    i = 0
    m = ks[0]
    while m >> (W * i):
        e = min(exp_of(k, i) for k in ks) if exp_of(m, i) else 0
        r |= e << (W * i)
        i += 1
    return r


def lead(p): return max(p)


def divexact(a, b):
    """a / b if exact, else None (packed integer order = lex)"""
    if not a: return {}
    lb = max(b)
    cb = b[lb]
    # quick reject on degree vectors
    q = {}
    r = dict(a)
    import heapq
    heap = [-m for m in r]
    heapq.heapify(heap)
    steps = 0
    rest = [(m, c) for m, c in b.items() if m != lb]
    while heap:
        m = -heapq.heappop(heap)
        c = r.get(m)
        if not c: continue
        # m - lb must be non negative in each field
        if not _divides(lb, m): return None
        d = m - lb
        k = Fraction(c) / cb if not (isinstance(c, int) and isinstance(cb, int) and c % cb == 0) else c // cb
        k = cn(k)
        q[d] = k
        del r[m]
        for m2, c2 in rest:
            n = d + m2
            v = r.get(n)
            if v is None:
                r[n] = -k * c2
                heapq.heappush(heap, -n)
            else:
                v = v - k * c2
                if v: r[n] = v
                else: r[n] = 0
        steps += 1
        if steps > 20000: return None
    return q


def _divides(a, b):
    while a:
        if (a & MASK) > (b & MASK): return False
        a >>= W
        b >>= W
    return True


def monic(p):
    """(constant, p/constant) with leading coefficient 1"""
    c = p[max(p)]
    if c == 1: return 1, p
    return c, {m: cn(Fraction(v) / c) for m, v in p.items()}


def key(p): return frozenset(p.items())


class Rat:
    """num / prod(factor**e)"""
    __slots__ = ('n', 'd')

    def __init__(self, n, d=None):
        self.n = n
        self.d = d or {}      # key -> (poly, exp)

    def den(self):
        r = {0: 1}
        for p, e in self.d.values(): r = pmul(r, ppow(p, e))
        return r

    def isconst(self): return isconst(self.n) and not self.d


def rconst(c): return Rat(const(c))


def dmerge(d, p, e):
    k = key(p)
    if k in d: e += d[k][1]
    if e: d[k] = (p, e)
    else: d.pop(k, None)


def cancel(r):
    if not r.n: return Rat({})
    if not r.d: return r
    n, d = r.n, dict(r.d)
    for k, (p, e) in list(r.d.items()):
        while e:
            if len(p) == 1:
                (m, c), = p.items()
                if not all(_divides(m, x) for x in n): break
                n = {x - m: v for x, v in n.items()}
            else:
                if len(n) < len(p) and len(n) == 1: break
                if len(n) * len(p) > 60000: break
                q = divexact(n, p)
                if q is None: break
                n = q
            e -= 1
        if e: d[k] = (p, e)
        else: del d[k]
    return Rat(n, d)


def radd(a, b):
    if not a.n: return b
    if not b.n: return a
    if a.d == b.d:
        return cancel(Rat(padd(a.n, b.n), a.d))
    na, nb = a.n, b.n
    d = dict(a.d)
    for k, (p, e) in b.d.items():
        ea = d[k][1] if k in d else 0
        if e > ea:
            na = pmul(na, ppow(p, e - ea))
            d[k] = (p, e)
    for k, (p, e) in d.items():
        eb = b.d[k][1] if k in b.d else 0
        if e > eb: nb = pmul(nb, ppow(p, e - eb))
    return cancel(Rat(padd(na, nb), d))


def rneg(a): return Rat(pneg(a.n), a.d)


def rmul(a, b):
    d = dict(a.d)
    for k, (p, e) in b.d.items(): dmerge(d, p, e)
    a2 = cancel(Rat(a.n, d))
    b2 = cancel(Rat(b.n, a2.d))
    return Rat(pmul(a2.n, b2.n), b2.d)


def factors(p):
    """constant, [(monic factor, exp)] : split off monomial content only"""
    m = monocontent(p)
    out = []
    if m:
        i = 0
        mm = m
        while mm:
            if mm & MASK: out.append((gen(i), mm & MASK))
            mm >>= W
            i += 1
        p = {k - m: v for k, v in p.items()}
    c, p = monic(p)
    if not isconst(p): out.append((p, 1))
    return c, out


def rinv(a):
    """1/a for nonzero a"""
    c, fs = factors(a.n)
    d = {}
    for p, e in fs: dmerge(d, p, e)
    n = const(Fraction(1) / c)
    for p, e in a.d.values(): n = pmul(n, ppow(p, e))
    return cancel(Rat(n, d))


def rdiv(a, b): return rmul(a, rinv(b))


def to_sympy(p, names=None):
    import sympy
    gs = gens_of(p)
    R, *xs = sympy.ring(['g%d' % i for i in gs], sympy.QQ) if gs else (None,)
    if R is None: return None, gs
    d = {}
    for m, c in p.items():
        f = Fraction(c)
        d[tuple(exp_of(m, i) for i in gs)] = sympy.QQ(f.numerator, f.denominator)
    return R.from_dict(d), gs


def from_sympy(sp, gs):
    r = {}
    for mon, c in sp.terms():
        m = 0
        for i, e in zip(gs, mon): m |= e << (W * i)
        r[m] = cn(Fraction(int(c.numerator), int(c.denominator)))
    return r


def sqfactor(p):
    """full factorisation over Q: (const, [(poly, exp)])"""
    sp, gs = to_sympy(p)
    if sp is None: return cval(p), []
    c, fs = sp.factor_list()
    const_ = Fraction(int(c.numerator), int(c.denominator))
    out = []
    for f, e in fs:
        q = from_sympy(f, gs)
        k, q = monic(q)
        const_ = const_ * Fraction(k) ** e
        out.append((q, e))
    return cn(const_), out
