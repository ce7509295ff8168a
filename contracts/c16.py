"""C16: matrix arithmetic."""
from .util import *

ASSUMPTIONS = ['division by a matrix is specified by the equation its result must satisfy (for example (m/n)*n = m), under determinant != 0']


def contracts():
    cs = []
    for n in (2, 3, 4):
        m, v = 'mat%d' % n, 'vec%d' % n
        E = lambda *a, **k: cs.append(Contract(*a, theory='FR', **k))
        R = lambda *a, **k: cs.append(Contract(*a, theory='R', **k))
        inv = lambda a, n=n: NOT(det(a, n).eq(ZERO))
        E(m + '.plus', '+a', 'a:' + m, m, spec=lambda a: a)
        E(m + '.neg', '-a', 'a:' + m, m, spec=lambda a: vneg(a))
        E(m + '.add', 'a + b', 'a:%s,b:%s' % (m, m), m, spec=vadd)
        E(m + '.sub', 'a - b', 'a:%s,b:%s' % (m, m), m, spec=vsub)
        E(m + '.compmult', 'zcm::matrixCompMult(a, b)', 'a:%s,b:%s' % (m, m), m, spec=lambda a, b: [x * y for x, y in zip(a, b)])
        E(m + '.mul.scalar', 'a * s', 'a:%s,s:float' % m, m, spec=vscale)
        E(m + '.scalar.mul', 's * a', 'a:%s,s:float' % m, m, spec=vscale)
        E(m + '.div.scalar', 'a / s', 'a:%s,s:float' % m, m, requires=lambda a, s: NOT(s.eq(ZERO)), spec=vdiv)
        E(m + '.scalar.div', 's / a', 'a:%s,s:float' % m, m, requires=lambda a, s: AND(*[NOT(x.eq(ZERO)) for x in a]), spec=lambda a, s: [s / x for x in a])
        R(m + '.mul', 'a * b', 'a:%s,b:%s' % (m, m), m, spec=lambda a, b, n=n: mmul(a, b, n))
        R(m + '.mul.vec', 'a * b', 'a:%s,b:%s' % (m, v), v, spec=lambda a, b, n=n: mvec(a, b, n))
        R('%s.mul.%s' % (v, m), 'b * a', 'a:%s,b:%s' % (m, v), v, spec=lambda a, b, n=n: vecm(b, a, n))
        R(m + '.assoc', '(a * b) * c - a * (b * c)', 'a:%s,b:%s,c:%s' % (m, m, v), v, spec=lambda a, b, c, n=n: [ZERO] * n)
        big = dict(opts={'cost': 10})
        R(m + '.div', 'a / b', 'a:%s,b:%s' % (m, m), m, requires=lambda a, b, i=inv: i(b), ensures=lambda a, b, r, n=n: goals_equal(mmul(r, b, n), a, '(a/b)*b = a'), **big)
        R(m + '.div.vec', 'a / b', 'a:%s,b:%s' % (m, v), v, requires=lambda a, b, i=inv: i(a), ensures=lambda a, b, r, n=n: goals_equal(mvec(a, r, n), b, 'a*(a/v) = v'), **big)
        R('%s.div.%s' % (v, m), 'b / a', 'a:%s,b:%s' % (m, v), v, requires=lambda a, b, i=inv: i(a), ensures=lambda a, b, r, n=n: goals_equal(vecm(r, a, n), b, '(v/a)*a = v'), **big)
        E(m + '.add.assign', 'a += b;', 'a:%s&,b:%s' % (m, m), stmt=True, spec=vadd)
        E(m + '.sub.assign', 'a -= b;', 'a:%s&,b:%s' % (m, m), stmt=True, spec=vsub)
        R(m + '.mul.assign', 'a *= b;', 'a:%s&,b:%s' % (m, m), stmt=True, spec=lambda a, b, n=n: mmul(a, b, n))
        R(m + '.div.assign', 'a /= b;', 'a:%s&,b:%s' % (m, m), stmt=True, requires=lambda a, b, i=inv: i(b), ensures=lambda a, b, r, n=n: goals_equal(mmul(r, b, n), a, '(a/b)*b = a'), **big)
        E(m + '.add.self', 'a += a;', 'a:%s&' % m, stmt=True, spec=lambda a: vadd(a, a))
        E(m + '.sub.self', 'a -= a;', 'a:%s&' % m, stmt=True, spec=lambda a: vsub(a, a))
        R(m + '.mul.self', 'a *= a;', 'a:%s&' % m, stmt=True, spec=lambda a, n=n: mmul(a, a, n))
        R(m + '.div.self', 'a /= a;', 'a:%s&' % m, stmt=True, requires=inv, spec=lambda a, n=n: ident(n), **big)
    return cs
