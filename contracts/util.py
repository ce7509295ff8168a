"""Vocabulary shared by the contract files: the mathematical definitions the postconditions are written in."""
import random, math
from zv.terms import *
from zv.contract import *
from zv.evalt import mpf
import mpmath

G = Goal
L = 'xyzw'
L2 = 'rgba'
L3 = 'stpq'
NAMES = ('xyzw', 'rgba', 'stpq')
ONE, ZERO, TWO = fc(1.0), fc(0.0), fc(2.0)
sq = lambda x: fn('sqrt', x)
SIN = lambda x: fn('sin', x)
COS = lambda x: fn('cos', x)


def total(xs):
    r = xs[0]
    for x in xs[1:]: r = r + x
    return r


def prod(xs):
    r = xs[0]
    for x in xs[1:]: r = r * x
    return r


def dot(a, b): return total([x * y for x, y in zip(a, b)])
def vadd(a, b): return V([x + y for x, y in zip(a, b)])
def vsub(a, b): return V([x - y for x, y in zip(a, b)])
def vscale(a, s): return V([x * s for x in a])
def vdiv(a, s): return V([x / s for x in a])
def vneg(a): return V([-x for x in a])
def norm(a): return sq(dot(a, a))
def cross(a, b): return V([a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]])
def unit(a): return dot(a, a).eq(ONE)
def nonzero(a): return OR(*[NOT(x.eq(ZERO)) for x in a])
def lst(x): return list(x) if isinstance(x, (list, tuple)) else [x]
def allof(cs): return AND(*list(cs))


# ---- matrices: flat column-major lists, n x n
def at(m, n, c, r): return m[c * n + r]
def mmul(a, b, n): return V([total([at(a, n, k, r) * at(b, n, c, k) for k in range(n)]) for c in range(n) for r in range(n)])
def mvec(m, v, n): return V([total([at(m, n, c, r) * v[c] for c in range(n)]) for r in range(n)])
def vecm(v, m, n): return V([total([at(m, n, c, r) * v[r] for r in range(n)]) for c in range(n)])
def tr(m, n): return V([at(m, n, r, c) for c in range(n) for r in range(n)])
def ident(n): return V([ONE if c == r else ZERO for c in range(n) for r in range(n)])


def det(m, n):
    if n == 1: return m[0]
    if n == 2: return at(m, 2, 0, 0) * at(m, 2, 1, 1) - at(m, 2, 1, 0) * at(m, 2, 0, 1)
    s = None
    for c in range(n):
        t = at(m, n, c, 0) * det(minor(m, n, c, 0), n - 1)
        s = t if s is None else (s - t if c % 2 else s + t)
    return s


def minor(m, n, c0, r0): return [at(m, n, c, r) for c in range(n) if c != c0 for r in range(n) if r != r0]


def adj(m, n):
    """adjugate: transpose of the cofactor matrix"""
    out = []
    for c in range(n):
        for r in range(n):
            d = det(minor(m, n, r, c), n - 1)
            out.append(-d if (c + r) % 2 else d)
    return V(out)


def goals_equal(lhs, rhs, name='', kind='real'): return [G(kind, a, b, '%s[%d]' % (name, i)) for i, (a, b) in enumerate(zip(lhs, rhs))]


# ---- quaternions (x, y, z, w)
def qmul(p, q):
    x1, y1, z1, w1 = p
    x2, y2, z2, w2 = q
    return V([w1 * x2 + x1 * w2 + y1 * z2 - z1 * y2, w1 * y2 - x1 * z2 + y1 * w2 + z1 * x2, w1 * z2 + x1 * y2 - y1 * x2 + z1 * w2, w1 * w2 - x1 * x2 - y1 * y2 - z1 * z2])


def qconj(q): return V([-q[0], -q[1], -q[2], q[3]])


def qrot(q, v):
    """rotation matrix of the unit quaternion q applied to v"""
    return mvec(qmat(q), v, 3)


def qmat(q):
    x, y, z, w = q
    return V([1 - 2 * (y * y + z * z), 2 * (x * y + w * z), 2 * (x * z - w * y),
              2 * (x * y - w * z), 1 - 2 * (x * x + z * z), 2 * (y * z + w * x),
              2 * (x * z + w * y), 2 * (y * z - w * x), 1 - 2 * (x * x + y * y)])


def rodrigues(angle, k):
    """3x3 column-major rotation by angle about the unit axis k"""
    c, s = COS(angle), SIN(angle)
    t = 1 - c
    x, y, z = k
    return V([c + t * x * x, t * x * y + s * z, t * x * z - s * y,
              t * x * y - s * z, c + t * y * y, t * y * z + s * x,
              t * x * z + s * y, t * y * z - s * x, c + t * z * z])


# ---- scalar vocabulary
def gmin(x, y): return ite(y < x, y, x)
def gmax(x, y): return ite(x < y, y, x)


def vt(n): return 'vec%d' % n
def ivt(n): return 'ivec%d' % n
def bvt(n): return 'bvec%d' % n


# ---- concrete samplers (high precision so that equations hold exactly enough)
def rnd(rng, lo=-3, hi=3):
    return mpf(rng.uniform(lo, hi))


def s_unit(rng, n):
    while True:
        v = [mpf(rng.gauss(0, 1)) for _ in range(n)]
        if rng.random() < .25:
            for i in range(n):
                if rng.random() < .4: v[i] = mpf(0)
        l = mpmath.sqrt(sum(x * x for x in v))
        if l > mpf('0.01'): return [x / l for x in v]


def s_vec(rng, n, m=3): return [rnd(rng, -m, m) for _ in range(n)]


# ---- guarantees about machine arithmetic (theory F): results are numbers although every step rounds
def box(b, *vs): return AND(*[AND(-fc(b) <= x, x <= fc(b)) for v in vs for x in lst(v)])
def atleast(b, v): return OR(*[fn('fabs', x) >= fc(b) for x in lst(v)])
def number(r, name='a number'): return [G('true', NOT(isnan(x)), name=name) for x in lst(r)]
def within(b, r, name=None): return [G('true', AND(-fc(b) <= x, x <= fc(b)), name=name or 'within [-%g,%g]' % (b, b)) for x in lst(r)]


def s_near_unit(rng, n):
    """unit up to rounding, often at the places where rounding matters"""
    e = 1 + mpf(rng.uniform(-1, 1)) * rng.choice([0, 1e-7, 2e-7, 1e-6])
    k = rng.random()
    v = s_unit(rng, n)
    if k < .25:
        v = [mpf(0)] * n
        v[rng.randrange(n)] = mpf(rng.choice([1, -1]))
    elif k < .5:
        v = [mpf(0)] * n
        h = mpmath.sqrt(mpf(1) / 2)
        i, j = rng.sample(range(n), 2)
        v[i], v[j] = h * rng.choice([1, -1]), h * rng.choice([1, -1])
    elif k < .6:
        v = [mpf(rng.choice([.5, -.5])) for _ in range(n)]
        if n != 4:
            l = mpmath.sqrt(sum(x * x for x in v))
            v = [x / l for x in v]
    return [x * e for x in v]


def s_mag(rng, n, lo=-14, hi=14):
    m = mpf(10) ** rng.uniform(lo, hi)
    return [x * m for x in s_unit(rng, n)]
