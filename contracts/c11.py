"""C11: component reductions."""
from .util import *
from zv.execir import noovf


def trees(xs, op):
    """every way to combine all of xs with the commutative operation op; yields (value, [conditions that no step overflows])"""
    if len(xs) == 1:
        yield xs[0], []
        return
    n = len(xs)
    for mask in range(1, (1 << n) - 1):
        if not mask & 1: continue
        a = [xs[i] for i in range(n) if mask >> i & 1]
        b = [xs[i] for i in range(n) if not mask >> i & 1]
        for va, ca in trees(a, op):
            for vb, cb in trees(b, op): yield iop(op, va, vb), ca + cb + [noovf(op, va, vb), noovf(op, vb, va)]


def safe(op): return lambda a: list(dict.fromkeys(c for _, cs in trees(list(a), op) for c in cs))


def contracts():
    cs = []
    C = lambda *a, **k: cs.append(Contract(*a, **k))
    for n in (2, 3, 4):
        v, iv = vt(n), ivt(n)
        C(v + '.add', 'zcm::compAdd(a)', 'a:' + v, 'float', theory='R', spec=lambda a: total(a))
        C(v + '.mul', 'zcm::compMul(a)', 'a:' + v, 'float', theory='R', spec=lambda a: prod(a))
        small = lambda rng, n=n: {'a': [rng.randint(-180, 180) for _ in range(n)]}
        C(iv + '.add', 'zcm::compAdd(a)', 'a:' + iv, 'int', theory='F', requires=safe('add'), sample=small, spec=lambda a: ifold('add', a))
        C(iv + '.mul', 'zcm::compMul(a)', 'a:' + iv, 'int', theory='F', requires=safe('mul'), sample=small, spec=lambda a: ifold('mul', a))
        num = lambda a: [NOT(isnan(x)) for x in a]
        one = lambda a, r: OR(*[fcmp_eq(r, x) for x in a])
        C(v + '.min', 'zcm::compMin(a)', 'a:' + v, 'float', theory='F', requires=num, ensures=lambda a, r, one=one: [G('true', one(a, r), name='is a component')] + [G('true', r <= x, name='bounds %d' % i) for i, x in enumerate(a)])
        C(v + '.max', 'zcm::compMax(a)', 'a:' + v, 'float', theory='F', requires=num, ensures=lambda a, r, one=one: [G('true', one(a, r), name='is a component')] + [G('true', x <= r, name='bounds %d' % i) for i, x in enumerate(a)])
        onei = lambda a, r: OR(*[r.eq(x) for x in a])
        C(iv + '.min', 'zcm::compMin(a)', 'a:' + iv, 'int', theory='F', ensures=lambda a, r, one=onei: [G('true', one(a, r), name='is a component')] + [G('true', icmp('sle', r, x), name='bounds %d' % i) for i, x in enumerate(a)])
        C(iv + '.max', 'zcm::compMax(a)', 'a:' + iv, 'int', theory='F', ensures=lambda a, r, one=onei: [G('true', one(a, r), name='is a component')] + [G('true', icmp('sle', x, r), name='bounds %d' % i) for i, x in enumerate(a)])
    return cs


def ifold(op, a):
    r = a[0]
    for x in a[1:]: r = iop(op, r, x)
    return r
