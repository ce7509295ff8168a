"""Hash-consed term DAG shared by the code (symbolic execution of LLVM IR) and the specifications.

Sorts: 'b' (boolean, IR i1), an int n>1 (n-bit integer), 'f' (binary32), 'd' (binary64).
The same term has two interpretations: F (bit-exact IEEE 754) and R (mathematical reals).
Every rewriting done by the constructors below is exact in BOTH interpretations
(NaN payloads and sNaN quieting are not distinguished).
"""
import struct
from fractions import Fraction

_table = {}
_nid = [0]


class T:
    __slots__ = ("op", "args", "sort", "id", "_cache")

    def __hash__(self):
        return self.id

    def __eq__(self, o):
        return self is o

    def __ne__(self, o):
        return self is not o

    def __repr__(self):
        return show(self)

    # specification sugar -------------------------------------------------
    def __add__(self, o): return add(self, lift(o, self.sort))
    def __radd__(self, o): return add(lift(o, self.sort), self)
    def __sub__(self, o): return sub(self, lift(o, self.sort))
    def __rsub__(self, o): return sub(lift(o, self.sort), self)
    def __mul__(self, o): return mul(self, lift(o, self.sort))
    def __rmul__(self, o): return mul(lift(o, self.sort), self)
    def __truediv__(self, o): return div(self, lift(o, self.sort))
    def __rtruediv__(self, o): return div(lift(o, self.sort), self)
    def __neg__(self): return neg(self)
    def __lt__(self, o): return lt(self, lift(o, self.sort))
    def __gt__(self, o): return lt(lift(o, self.sort), self)
    def __le__(self, o): return le(self, lift(o, self.sort))
    def __ge__(self, o): return le(lift(o, self.sort), self)
    def __and__(self, o): return AND(self, o) if self.sort == 'b' else iop('and', self, lift(o, self.sort))
    def __or__(self, o): return OR(self, o) if self.sort == 'b' else iop('or', self, lift(o, self.sort))
    def __xor__(self, o): return bxor(self, o) if self.sort == 'b' else iop('xor', self, lift(o, self.sort))
    def __invert__(self): return NOT(self) if self.sort == 'b' else iop('xor', self, ic(-1, self.sort))
    def eq(self, o): return eq(self, lift(o, self.sort))
    def ne(self, o): return NOT(eq(self, lift(o, self.sort)))


def mk(op, args, sort):
    key = (op, args, sort)
    t = _table.get(key)
    if t is None:
        t = T()
        t.op, t.args, t.sort = op, args, sort
        _nid[0] += 1
        t.id = _nid[0]
        t._cache = None
        _table[key] = t
    return t


def f2bits_py(x):
    return struct.unpack('<I', struct.pack('<f', x))[0]


def bits2f_py(b):
    return struct.unpack('<f', struct.pack('<I', b & 0xffffffff))[0]


def d2bits_py(x):
    return struct.unpack('<Q', struct.pack('<d', x))[0]


def bits2d_py(b):
    return struct.unpack('<d', struct.pack('<Q', b & (1 << 64) - 1))[0]


TRUE = mk('c', (True,), 'b')
FALSE = mk('c', (False,), 'b')


def boolc(v): return TRUE if v else FALSE
def ic(v, n):
    if n == 'b':
        return boolc(v & 1)
    return mk('c', (v & ((1 << n) - 1),), n)


def fbits(b, sort='f'): return mk('c', (b,), sort)


def fc(x):
    """binary32 constant nearest to x (float, int or Fraction)."""
    return mk('c', (f2bits_py(round_f32(x)),), 'f')


def round_f32(x):
    import numpy as np
    if isinstance(x, Fraction):
        # correctly rounded Fraction -> float32: via exact search around numpy rounding
        d = np.float32(float(x))
        best = d
        for c in (np.nextafter(d, np.float32(-np.inf)), np.nextafter(d, np.float32(np.inf))):
            if abs(Fraction(float(c)) - x) < abs(Fraction(float(best)) - x):
                best = c
        return float(best)
    return float(np.float32(x))


def dc(x): return mk('c', (d2bits_py(float(x)),), 'd')
def is_c(t): return t.op == 'c'


def cval(t):
    return t.args[0]


def fval(t):
    """python float of a float constant"""
    return bits2f_py(t.args[0]) if t.sort == 'f' else bits2d_py(t.args[0])


def lift(o, sort):
    if isinstance(o, T):
        return o
    if sort == 'f':
        return fc(o)
    if sort == 'd':
        return dc(o)
    if sort == 'b':
        return boolc(o)
    return ic(int(o), sort)


def var(name, sort): return mk('v', (name,), sort)


# ---------------------------------------------------------------- booleans
def NOT(a):
    if a.op == 'c':
        return boolc(not a.args[0])
    if a.op == 'not':
        return a.args[0]
    return mk('not', (a,), 'b')


def AND(*xs):
    out = []
    seen = set()
    for x in xs:
        ys = x.args if x.op == 'and' and x.sort == 'b' else (x,)
        for y in ys:
            if y is TRUE:
                continue
            if y is FALSE:
                return FALSE
            if y in seen:
                continue
            if NOT(y) in seen:
                return FALSE
            seen.add(y)
            out.append(y)
    if not out:
        return TRUE
    if len(out) == 1:
        return out[0]
    out.sort(key=lambda t: t.id)
    return mk('and', tuple(out), 'b')


def OR(*xs):
    return NOT(AND(*[NOT(x) for x in xs]))


def IMP(a, b): return OR(NOT(a), b)
def bxor(a, b): return ite(a, NOT(b), b)
def IFF(a, b): return ite(a, b, NOT(b))


def ite(c, a, b):
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a is b:
        return a
    if c.op == 'not':
        return ite(c.args[0], b, a)
    if a.op == 'ite' and a.args[0] is c:
        a = a.args[1]
    if b.op == 'ite' and b.args[0] is c:
        b = b.args[2]
    if a is b:
        return a
    if a.sort == 'b':
        if a is TRUE:
            return c if b is FALSE else OR(c, b)
        if a is FALSE:
            return NOT(c) if b is TRUE else AND(NOT(c), b)
        if b is TRUE:
            return OR(NOT(c), a)
        if b is FALSE:
            return AND(c, a)
        if a is c:
            return OR(c, b)
        if b is c:
            return AND(c, a)
    if isinstance(a.sort, int):
        # keep "zext bool" shape through merges
        za, zb = _as_boolext(a), _as_boolext(b)
        if za is not None and zb is not None and (a.op == 'zext' or b.op == 'zext'):
            return zext(ite(c, za, zb), a.sort)
    return mk('ite', (c, a, b), a.sort)


def _as_boolext(t):
    if t.op == 'zext' and t.args[0].sort == 'b':
        return t.args[0]
    if t.op == 'c' and t.args[0] in (0, 1):
        return boolc(t.args[0])
    return None


def eq(a, b):
    """floats: IEEE == ; ints and bools: identity"""
    if a.sort in ('f', 'd'):
        return fcmp_eq(a, b)
    if a.sort == 'b':
        return IFF(a, b)
    return icmp('eq', a, b)


def lt(a, b):
    return fcmp_lt(a, b) if a.sort in ('f', 'd') else icmp('slt', a, b)


def le(a, b):
    return fcmp_le(a, b) if a.sort in ('f', 'd') else icmp('sle', a, b)


def add(a, b): return fadd(a, b) if a.sort in ('f', 'd') else iop('add', a, b)
def sub(a, b): return fsub(a, b) if a.sort in ('f', 'd') else iop('sub', a, b)
def mul(a, b): return fmul(a, b) if a.sort in ('f', 'd') else iop('mul', a, b)
def div(a, b): return fdiv(a, b) if a.sort in ('f', 'd') else iop('sdiv', a, b)
def neg(a): return fneg(a) if a.sort in ('f', 'd') else iop('sub', ic(0, a.sort), a)


# ---------------------------------------------------------------- integers
def sgn(v, n):
    return v - (1 << n) if v >> (n - 1) & 1 else v


def int_eval(op, x, y, n):
    """x,y unsigned n-bit values; returns unsigned value or None if undefined"""
    m = (1 << n) - 1
    sx, sy = sgn(x, n), sgn(y, n)
    if op == 'add': return (x + y) & m
    if op == 'sub': return (x - y) & m
    if op == 'mul': return (x * y) & m
    if op == 'and': return x & y
    if op == 'or': return x | y
    if op == 'xor': return x ^ y
    if op == 'shl': return (x << y) & m if y < n else None
    if op == 'lshr': return x >> y if y < n else None
    if op == 'ashr': return (sx >> y) & m if y < n else None
    if op == 'udiv': return x // y if y else None
    if op == 'urem': return x % y if y else None
    if op in ('sdiv', 'srem'):
        if sy == 0:
            return None
        q = abs(sx) // abs(sy)
        if (sx < 0) != (sy < 0):
            q = -q
        return (q if op == 'sdiv' else sx - q * sy) & m
    raise KeyError(op)


COMM = {'add', 'mul', 'and', 'or', 'xor'}


def iop(op, a, b):
    n = a.sort
    assert n == b.sort, (op, a, b)
    if n == 'b':
        if op in ('and',): return AND(a, b)
        if op in ('or',): return OR(a, b)
        if op in ('xor', 'add', 'sub'): return bxor(a, b)
        raise ValueError('i1 ' + op)
    if a.op == 'c' and b.op == 'c':
        r = int_eval(op, a.args[0], b.args[0], n)
        if r is not None:
            return ic(r, n)
    if op in COMM:
        if a.op == 'c':
            a, b = b, a
        elif b.op != 'c' and a.id > b.id:
            a, b = b, a
    m = (1 << n) - 1
    if b.op == 'c':
        v = b.args[0]
        if v == 0:
            if op in ('add', 'sub', 'or', 'xor', 'shl', 'lshr', 'ashr'): return a
            if op in ('and', 'mul'): return b
        if v == 1 and op in ('mul', 'udiv', 'sdiv'): return a
        if v == m and op == 'and': return a
        if op == 'and' and v == 1 and _as_boolext(a) is not None: return a
        if op == 'sub':
            return iop('add', a, ic(-v, n))
        if op == 'add' and a.op == 'add' and a.args[1].op == 'c':
            return iop('add', a.args[0], ic(a.args[1].args[0] + v, n))
        if op in ('shl', 'lshr') and a.op == 'concat':
            pass
    if op in ('or', 'xor', 'and'):
        za, zb = _as_boolext(a), _as_boolext(b)
        if za is not None and zb is not None:
            f = {'or': OR, 'xor': bxor, 'and': AND}[op]
            return zext(f(za, zb), n)
        if op in ('or', 'and') and a is b: return a
    if op in ('sub', 'xor') and a is b: return ic(0, n)
    if op == 'sub':
        (x, k), (y, l) = _base(a), _base(b)
        if x is y: return ic(k - l, n)
        if _addrlike(a) and _addrlike(b):
            for t, sw in ((a, False), (b, True)):
                if t.op == 'ite':
                    f = (lambda u: iop('sub', u, b)) if not sw else (lambda u: iop('sub', a, u))
                    return ite(t.args[0], f(t.args[1]), f(t.args[2]))
    # push into ite of constants (array indices)
    for x, y, sw in ((a, b, False), (b, a, True)):
        if y.op == 'c' and x.op == 'ite' and _iteconst(x):
            f = (lambda u: iop(op, u, y)) if not sw else (lambda u: iop(op, y, u))
            return ite(x.args[0], f(x.args[1]), f(x.args[2]))
    return mk(op, (a, b), n)


def _base(t):
    return (t.args[0], t.args[1].args[0]) if t.op == 'add' and t.args[1].op == 'c' else (t, 0)


def _addrlike(t, d=0):
    if t.op == 'ite': return d < 5 and _addrlike(t.args[1], d + 1) and _addrlike(t.args[2], d + 1)
    b = _base(t)[0]
    return b.op == 'v' and b.args[0].startswith('addr!')


def _iteconst(t, d=0):
    if t.op == 'c': return True
    return t.op == 'ite' and d < 6 and _iteconst(t.args[1], d + 1) and _iteconst(t.args[2], d + 1)


ICMP = {'eq', 'ne', 'ult', 'ule', 'ugt', 'uge', 'slt', 'sle', 'sgt', 'sge'}


def icmp_eval(p, x, y, n):
    sx, sy = sgn(x, n), sgn(y, n)
    return {'eq': x == y, 'ne': x != y, 'ult': x < y, 'ule': x <= y, 'ugt': x > y, 'uge': x >= y,
            'slt': sx < sy, 'sle': sx <= sy, 'sgt': sx > sy, 'sge': sx >= sy}[p]


def icmp(p, a, b):
    if p == 'ne': return NOT(icmp('eq', a, b))
    if p == 'ugt': return icmp('ult', b, a)
    if p == 'sgt': return icmp('slt', b, a)
    if p == 'ule': return NOT(icmp('ult', b, a))
    if p == 'sle': return NOT(icmp('slt', b, a))
    if p == 'uge': return NOT(icmp('ult', a, b))
    if p == 'sge': return NOT(icmp('slt', a, b))
    n = a.sort
    if n == 'b':
        x, y = a, b
        if p == 'eq': return IFF(x, y)
        if p == 'ult': return AND(NOT(x), y)
        if p == 'slt': return AND(x, NOT(y))
    if a.op == 'c' and b.op == 'c':
        return boolc(icmp_eval(p, a.args[0], b.args[0], n))
    if a is b:
        return boolc(p == 'eq')
    if p == 'eq':
        if a.op == 'c': a, b = b, a
        if b.op == 'c':
            z = _as_boolext(a)
            if z is not None:
                return z if b.args[0] == 1 else NOT(z) if b.args[0] == 0 else FALSE
            if a.op == 'zext':
                k = a.args[0].sort
                if b.args[0] >> k: return FALSE
                return icmp('eq', a.args[0], ic(b.args[0], k))
            if a.op == 'sext':
                k = a.args[0].sort
                if k == 'b':
                    m = (1 << n) - 1
                    return a.args[0] if b.args[0] == m else NOT(a.args[0]) if b.args[0] == 0 else FALSE
                lo = b.args[0] & ((1 << k) - 1)
                if ic(sgn(lo, k), n) is not b: return FALSE
                return icmp('eq', a.args[0], ic(lo, k))
        else:
            za, zb = _as_boolext(a), _as_boolext(b)
            if za is not None and zb is not None: return IFF(za, zb)
            if a.op in ('sext', 'zext') and a.op == b.op and a.args[0].sort == b.args[0].sort:
                return icmp('eq', a.args[0], b.args[0])
            if a.id > b.id: a, b = b, a
    else:
        if a.op in ('sext', 'zext') and a.op == b.op and a.args[0].sort == b.args[0].sort and a.args[0].sort != 'b':
            if p == 'slt' and a.op == 'sext': return icmp('slt', a.args[0], b.args[0])
            if p == 'ult' and a.op == 'zext': return icmp('ult', a.args[0], b.args[0])
            if p == 'slt' and a.op == 'zext': return icmp('ult', a.args[0], b.args[0])
    for x, y, sw in ((a, b, False), (b, a, True)):
        if y.op == 'c' and x.op == 'ite':
            if _iteconst(x) or (x.args[1].op == 'c' and p == 'eq') or (x.args[2].op == 'c' and p == 'eq'):
                f = (lambda u: icmp(p, u, y)) if not sw else (lambda u: icmp(p, y, u))
                return ite(x.args[0], f(x.args[1]), f(x.args[2]))
    return mk('i' + p, (a, b), 'b')


def zext(a, n):
    if a.op == 'c': return ic(int(a.args[0]), n)
    if a.sort == n: return a
    if a.op == 'zext': return zext(a.args[0], n)
    if a.op == 'ite' and _iteconst(a): return ite(a.args[0], zext(a.args[1], n), zext(a.args[2], n))
    return mk('zext', (a,), n)


def sext(a, n):
    if a.sort == n: return a
    if a.op == 'c':
        if a.sort == 'b': return ic(-int(a.args[0]), n)
        return ic(sgn(a.args[0], a.sort), n)
    if a.op == 'zext': return zext(a.args[0], n)
    if a.op == 'sext': return sext(a.args[0], n)
    if a.op == 'ite' and _iteconst(a): return ite(a.args[0], sext(a.args[1], n), sext(a.args[2], n))
    return mk('sext', (a,), n)


def trunc(a, n):
    if a.sort == n: return a
    k = 1 if n == 'b' else n
    if a.op == 'c': return ic(a.args[0] & ((1 << k) - 1), n)
    if a.op in ('zext', 'sext'):
        s = a.args[0].sort
        if s == n: return a.args[0]
        sb = 1 if s == 'b' else s
        if sb > k: return trunc(a.args[0], n)
        if n != 'b':
            return (zext if a.op == 'zext' else sext)(a.args[0], n)
    if a.op == 'ite' and (_iteconst(a) or n == 'b'):
        return ite(a.args[0], trunc(a.args[1], n), trunc(a.args[2], n))
    if n == 'b':
        r = extract(a, 0, 8) if a.sort > 8 else a
        z = _as_boolext(r)
        if z is not None: return z
        if r.op in ('and', 'or', 'xor') and isinstance(r.sort, int):
            f = {'and': AND, 'or': OR, 'xor': bxor}[r.op]
            return f(trunc(r.args[0], 'b'), trunc(r.args[1], 'b'))
        return mk('trunc', (r,), 'b')
    return extract(a, 0, n)


def extract(a, lo, n):
    """bits [lo, lo+n) of integer term a"""
    if lo == 0 and n == a.sort: return a
    if a.op == 'c': return ic(a.args[0] >> lo, n)
    if a.op == 'concat':
        hi, l = a.args
        ls = l.sort
        if lo + n <= ls: return extract(l, lo, n)
        if lo >= ls: return extract(hi, lo - ls, n)
        return concat(extract(hi, 0, lo + n - ls), extract(l, lo, ls - lo))
    if a.op == 'extract': return extract(a.args[0], a.args[1] + lo, n)
    if a.op == 'zext':
        s = a.args[0].sort
        sb = 1 if s == 'b' else s
        if lo >= sb: return ic(0, n)
        if lo == 0 and s == 'b': return zext(a.args[0], n)
        if lo == 0 and n >= sb: return zext(a.args[0], n)
        if lo + n <= sb: return extract(a.args[0], lo, n)
    if a.op == 'sext' and a.args[0].sort != 'b':
        s = a.args[0].sort
        if lo + n <= s: return extract(a.args[0], lo, n)
    if a.op == 'ite': return ite(a.args[0], extract(a.args[1], lo, n), extract(a.args[2], lo, n))
    if a.op in ('and', 'or', 'xor') and isinstance(a.sort, int):
        return iop(a.op, extract(a.args[0], lo, n), extract(a.args[1], lo, n))
    if a.op == 'shl' and a.args[1].op == 'c':
        k = a.args[1].args[0]
        if lo >= k: return extract(a.args[0], lo - k, n)
        if lo + n <= k: return ic(0, n)
    if a.op == 'lshr' and a.args[1].op == 'c':
        k = a.args[1].args[0]
        if lo + n + k <= a.sort: return extract(a.args[0], lo + k, n)
        if lo + k >= a.sort: return ic(0, n)
    return mk('extract', (a, lo, n), n)


def concat(hi, lo):
    n = hi.sort + lo.sort
    if hi.op == 'c' and lo.op == 'c': return ic(hi.args[0] << lo.sort | lo.args[0], n)
    if hi.op == 'extract' and lo.op == 'extract' and hi.args[0] is lo.args[0] and hi.args[1] == lo.args[1] + lo.args[2]:
        return extract(hi.args[0], lo.args[1], n)
    if hi.op == 'c' and hi.args[0] == 0: return zext(lo, n)
    return mk('concat', (hi, lo), n)


# ---------------------------------------------------------------- floats
def bits2f(a, sort='f'):
    if a.op == 'c': return fbits(a.args[0], sort)
    if a.op == 'f2bits' and a.args[0].sort == sort: return a.args[0]
    if a.op == 'ite': return ite(a.args[0], bits2f(a.args[1], sort), bits2f(a.args[2], sort))
    # sign manipulations
    w = 32 if sort == 'f' else 64
    if a.op == 'xor' and a.args[1].op == 'c' and a.args[1].args[0] == 1 << (w - 1):
        return fneg(bits2f(a.args[0], sort))
    if a.op == 'and' and a.args[1].op == 'c' and a.args[1].args[0] == (1 << (w - 1)) - 1:
        return fabs(bits2f(a.args[0], sort))
    return mk('bits2f', (a,), sort)


def f2bits(a):
    n = 32 if a.sort == 'f' else 64
    if a.op == 'c': return ic(a.args[0], n)
    if a.op == 'bits2f': return a.args[0]
    if a.op == 'ite': return ite(a.args[0], f2bits(a.args[1]), f2bits(a.args[2]))
    return mk('f2bits', (a,), n)


def frac(t):
    """exact rational of a finite float constant, or None"""
    x = fval(t)
    if x != x or x in (float('inf'), float('-inf')): return None
    return Fraction(x)


def _exact(fr, sort, negzero=False):
    """float const for Fraction if exactly representable, else None"""
    if fr is None: return None
    try:
        x = float(fr)
    except OverflowError:
        return None
    if Fraction(x) != fr: return None
    if sort == 'f':
        try:
            y = struct.unpack('<f', struct.pack('<f', x))[0]
        except OverflowError:
            return None
        if y != x: return None
        return fbits(f2bits_py(x), 'f')
    return dc(x)


def isone(t): return t.op == 'c' and fval(t) == 1.0
def ismone(t): return t.op == 'c' and fval(t) == -1.0


def fneg(a):
    if a.op == 'c':
        return fbits(a.args[0] ^ (1 << 31 if a.sort == 'f' else 1 << 63), a.sort)
    if a.op == 'fneg': return a.args[0]
    return mk('fneg', (a,), a.sort)


def fadd(a, b):
    if a.op == 'c' and b.op == 'c':
        x, y = frac(a), frac(b)
        if x is not None and y is not None and x + y != 0:
            r = _exact(x + y, a.sort)
            if r is not None: return r
    if a.id > b.id: a, b = b, a
    return mk('fadd', (a, b), a.sort)


def fsub(a, b): return fadd(a, fneg(b))


def _ispow2(fr):
    n, d = abs(fr.numerator), fr.denominator
    return n != 0 and (n & (n - 1)) == 0 and (d & (d - 1)) == 0


def fmul(a, b):
    if a.op == 'c' and b.op == 'c':
        x, y = frac(a), frac(b)
        if x is not None and y is not None and x * y != 0:
            r = _exact(x * y, a.sort)
            if r is not None: return r
    sign = False
    if a.op == 'fneg': a, sign = a.args[0], not sign
    if b.op == 'fneg': b, sign = b.args[0], not sign
    if a.op == 'c' and a.args[0] >> (31 if a.sort == 'f' else 63): a, sign = fneg(a), not sign
    if b.op == 'c' and b.args[0] >> (31 if a.sort == 'f' else 63): b, sign = fneg(b), not sign
    if isone(a): r = b
    elif isone(b): r = a
    else:
        if a.id > b.id: a, b = b, a
        r = mk('fmul', (a, b), a.sort)
    return fneg(r) if sign else r


def fdiv(a, b):
    if b.op == 'c':
        y = frac(b)
        if y is not None and y != 0 and _ispow2(y):
            r = _exact(1 / y, b.sort)
            if r is not None: return fmul(a, r)
    if a.op == 'c' and b.op == 'c':
        x, y = frac(a), frac(b)
        if x is not None and y is not None and y != 0 and x != 0:
            r = _exact(x / y, a.sort)
            if r is not None: return r
    sign = False
    if a.op == 'fneg': a, sign = a.args[0], not sign
    if b.op == 'fneg': b, sign = b.args[0], not sign
    if a.op == 'c' and a.args[0] >> (31 if a.sort == 'f' else 63): a, sign = fneg(a), not sign
    if b.op == 'c' and b.args[0] >> (31 if a.sort == 'f' else 63): b, sign = fneg(b), not sign
    r = mk('fdiv', (a, b), a.sort)
    return fneg(r) if sign else r


def isnan(a):
    if a.op == 'c': return boolc(fval(a) != fval(a))
    if a.op == 'fneg': return isnan(a.args[0])
    if a.op == 'fn' and a.args[0] in ('fabs', 'floor', 'ceil', 'trunc', 'round', 'rint') : return isnan(a.args[1])
    if a.op == 'ite': return ite(a.args[0], isnan(a.args[1]), isnan(a.args[2]))
    if a.op in ('sitofp', 'uitofp'): return FALSE
    if a.op == 'fpext': return isnan(a.args[0])
    return mk('isnan', (a,), 'b')


def fcmp_eq(a, b):
    if a.op == 'c' and b.op == 'c': return boolc(fval(a) == fval(b))
    if a is b: return NOT(isnan(a))
    if a.op == 'fpext' and b.op == 'fpext': return fcmp_eq(a.args[0], b.args[0])
    if a.id > b.id: a, b = b, a
    return mk('feq', (a, b), 'b')


def fcmp_lt(a, b):
    if a.op == 'c' and b.op == 'c': return boolc(fval(a) < fval(b))
    if a is b: return FALSE
    if a.op == 'fpext' and b.op == 'fpext': return fcmp_lt(a.args[0], b.args[0])
    if a.op == 'fpext' and b.op == 'c':
        r = _exact(frac(b), 'f')
        if r is not None: return fcmp_lt(a.args[0], r)
    if b.op == 'fpext' and a.op == 'c':
        r = _exact(frac(a), 'f')
        if r is not None: return fcmp_lt(r, b.args[0])
    if a.op == 'fneg' and b.op == 'fneg': return fcmp_lt(b.args[0], a.args[0])
    if a.op == 'fneg' and b.op == 'c': return fcmp_lt(fneg(b), a.args[0])
    if b.op == 'fneg' and a.op == 'c': return fcmp_lt(b.args[0], fneg(a))
    return mk('flt', (a, b), 'b')


def fcmp_le(a, b):
    if a.op == 'c' and b.op == 'c': return boolc(fval(a) <= fval(b))
    if a is b: return NOT(isnan(a))
    if a.op == 'fpext' and b.op == 'fpext': return fcmp_le(a.args[0], b.args[0])
    if a.op == 'fneg' and b.op == 'fneg': return fcmp_le(b.args[0], a.args[0])
    if a.op == 'fneg' and b.op == 'c': return fcmp_le(fneg(b), a.args[0])
    if b.op == 'fneg' and a.op == 'c': return fcmp_le(b.args[0], fneg(a))
    return mk('fle', (a, b), 'b')


def fcmp(p, a, b):
    if p == 'oeq': return fcmp_eq(a, b)
    if p == 'une': return NOT(fcmp_eq(a, b))
    if p == 'olt': return fcmp_lt(a, b)
    if p == 'ogt': return fcmp_lt(b, a)
    if p == 'ole': return fcmp_le(a, b)
    if p == 'oge': return fcmp_le(b, a)
    if p == 'ult': return NOT(fcmp_le(b, a))
    if p == 'ugt': return NOT(fcmp_le(a, b))
    if p == 'ule': return NOT(fcmp_lt(b, a))
    if p == 'uge': return NOT(fcmp_lt(a, b))
    if p == 'uno': return OR(isnan(a), isnan(b))
    if p == 'ord': return AND(NOT(isnan(a)), NOT(isnan(b)))
    if p == 'one': return OR(fcmp_lt(a, b), fcmp_lt(b, a))
    if p == 'ueq': return NOT(OR(fcmp_lt(a, b), fcmp_lt(b, a)))
    if p == 'true': return TRUE
    if p == 'false': return FALSE
    raise KeyError(p)


def fabs(a): return fn('fabs', a)


def fn(name, *args):
    """math function; sort of the result is that of the first argument"""
    s = args[0].sort
    if name == 'fabs':
        a = args[0]
        if a.op == 'c': return fbits(a.args[0] & ((1 << 31) - 1 if s == 'f' else (1 << 63) - 1), s)
        if a.op == 'fneg': return fn('fabs', a.args[0])
        if a.op == 'fn' and a.args[0] in ('fabs', 'sqrt') and a.args[0] == 'fabs': return a
    if name in ('floor', 'ceil', 'trunc', 'round', 'rint') and args[0].op == 'c':
        x = fval(args[0])
        if x == x and abs(x) < 1e9 and x == int(x): return args[0]
    return mk('fn', (name,) + tuple(args), s)


def sitofp(a, sort='f'):
    if a.op == 'c':
        r = _exact(Fraction(sgn(a.args[0], a.sort)), sort)
        if r is not None: return r
    if a.op == 'ite' and _iteconst(a): return ite(a.args[0], sitofp(a.args[1], sort), sitofp(a.args[2], sort))
    z = _as_boolext(a)
    if z is not None: return ite(z, fc(1) if sort == 'f' else dc(1), fc(0) if sort == 'f' else dc(0))
    return mk('sitofp', (a,), sort)


def uitofp(a, sort='f'):
    if a.sort == 'b': return ite(a, fc(1) if sort == 'f' else dc(1), fc(0) if sort == 'f' else dc(0))
    if a.op == 'c':
        r = _exact(Fraction(a.args[0]), sort)
        if r is not None: return r
    if a.op == 'ite' and _iteconst(a): return ite(a.args[0], uitofp(a.args[1], sort), uitofp(a.args[2], sort))
    z = _as_boolext(a)
    if z is not None: return ite(z, fc(1) if sort == 'f' else dc(1), fc(0) if sort == 'f' else dc(0))
    return mk('uitofp', (a,), sort)


def fpext(a):
    if a.op == 'c':
        return dc(fval(a))
    return mk('fpext', (a,), 'd')


def fptrunc(a):
    if a.op == 'fpext': return a.args[0]
    if a.op == 'c':
        x = fval(a)
        try:
            if x == x: return fbits(f2bits_py(round_f32(x)), 'f')
        except OverflowError:
            pass
    if a.op == 'ite': return ite(a.args[0], fptrunc(a.args[1]), fptrunc(a.args[2]))
    if a.op == 'fneg': return fneg(fptrunc(a.args[0]))
    if a.op == 'fn' and a.args[0] in ('fabs', 'floor', 'ceil', 'trunc', 'round', 'rint') and a.args[1].op == 'fpext':
        return fn(a.args[0], a.args[1].args[0])
    # double rounding is innocuous for + - * / sqrt of two floats computed in double
    if a.op in ('fadd', 'fmul', 'fdiv'):
        xs = []
        for x in a.args:
            if x.op == 'fpext': xs.append(x.args[0])
            elif x.op == 'fneg' and x.args[0].op == 'fpext': xs.append(fneg(x.args[0].args[0]))
            elif x.op == 'c' and _exact(frac(x), 'f') is not None: xs.append(_exact(frac(x), 'f'))
            else: return mk('fptrunc', (a,), 'f')
        return {'fadd': fadd, 'fmul': fmul, 'fdiv': fdiv}[a.op](*xs)
    if a.op == 'fn' and a.args[0] == 'sqrt' and a.args[1].op == 'fpext': return fn('sqrt', a.args[1].args[0])
    return mk('fptrunc', (a,), 'f')


# ---------------------------------------------------------------- traversal
def free_vars(t, acc=None):
    acc = set() if acc is None else acc
    st, seen = [t], set()
    while st:
        x = st.pop()
        if x in seen: continue
        seen.add(x)
        if x.op == 'v': acc.add(x)
        for a in x.args:
            if isinstance(a, T): st.append(a)
    return acc


def subterms(ts):
    """post-order list of distinct subterms"""
    out, seen = [], set()
    st = [(t, False) for t in ts]
    while st:
        x, done = st.pop()
        if done:
            out.append(x)
            continue
        if x in seen: continue
        seen.add(x)
        st.append((x, True))
        for a in x.args:
            if isinstance(a, T) and a not in seen: st.append((a, False))
    return out


def rebuild(op, args, sort):
    """apply the normalising constructor for an operator"""
    if op in ('c', 'v'): return mk(op, args, sort)
    if op == 'not': return NOT(*args)
    if op == 'and' and sort == 'b': return AND(*args)
    if op == 'ite': return ite(*args)
    if op in ('add', 'sub', 'mul', 'udiv', 'sdiv', 'urem', 'srem', 'and', 'or', 'xor', 'shl', 'lshr', 'ashr'): return iop(op, *args)
    if op in ('ieq', 'iult', 'islt'): return icmp(op[1:], *args)
    if op == 'zext': return zext(args[0], sort)
    if op == 'sext': return sext(args[0], sort)
    if op == 'trunc': return trunc(args[0], sort)
    if op == 'extract': return extract(*args)
    if op == 'concat': return concat(*args)
    if op == 'bits2f': return bits2f(args[0], sort)
    if op == 'f2bits': return f2bits(*args)
    if op == 'fneg': return fneg(*args)
    if op == 'fadd': return fadd(*args)
    if op == 'fmul': return fmul(*args)
    if op == 'fdiv': return fdiv(*args)
    if op == 'isnan': return isnan(*args)
    if op == 'feq': return fcmp_eq(*args)
    if op == 'flt': return fcmp_lt(*args)
    if op == 'fle': return fcmp_le(*args)
    if op == 'fn': return fn(*args)
    if op == 'sitofp': return sitofp(args[0], sort)
    if op == 'uitofp': return uitofp(args[0], sort)
    if op == 'fpext': return fpext(*args)
    if op == 'fptrunc': return fptrunc(*args)
    return mk(op, args, sort)


def subst(ts, m):
    """substitute terms (dict T->T) in each of ts, rebuilding with normalisation"""
    memo = dict(m)
    for x in subterms(ts):
        if x in memo: continue
        if not any(isinstance(a, T) for a in x.args):
            memo[x] = x
            continue
        na = tuple(memo[a] if isinstance(a, T) else a for a in x.args)
        memo[x] = x if na == x.args else rebuild(x.op, na, x.sort)
    return [memo[t] for t in ts]


def show(t, depth=12):
    if t.op == 'c':
        if t.sort == 'f' or t.sort == 'd': return repr(fval(t))
        if t.sort == 'b': return 'true' if t.args[0] else 'false'
        return str(sgn(t.args[0], t.sort))
    if t.op == 'v': return t.args[0]
    if depth == 0: return '...'
    sym = {'fadd': '+', 'fmul': '*', 'fdiv': '/', 'flt': '<', 'fle': '<=', 'feq': '==', 'ieq': '==', 'islt': '<s', 'iult': '<u'}
    a = [show(x, depth - 1) if isinstance(x, T) else str(x) for x in t.args]
    if t.op in sym and len(a) == 2: return '(%s %s %s)' % (a[0], sym[t.op], a[1])
    if t.op == 'fneg': return '-' + a[0]
    if t.op == 'fn': return '%s(%s)' % (a[0], ', '.join(a[1:]))
    return '%s(%s)' % (t.op, ', '.join(a))
