"""C17: transpose, determinant, adjugate, inverse."""
from .util import *


def contracts():
    cs = []
    for n in (2, 3, 4):
        m = 'mat%d' % n
        E = lambda *a, **k: cs.append(Contract(*a, theory='F', **k))
        R = lambda *a, **k: cs.append(Contract(*a, theory='R', **k))
        inv = lambda a, n=n: NOT(det(a, n).eq(ZERO))
        E(m + '.transpose', 'zcm::transpose(a)', 'a:' + m, m, spec=lambda a, n=n: tr(a, n))
        R(m + '.determinant', 'zcm::determinant(a)', 'a:' + m, 'float', spec=lambda a, n=n: det(a, n))
        big = dict(opts={'cost': 10})
        R(m + '.inverse', 'zcm::inverse(a)', 'a:' + m, m, requires=inv, ensures=lambda a, r, n=n: goals_equal(mmul(r, a, n), ident(n), 'inverse(a)*a') + goals_equal(mmul(a, r, n), ident(n), 'a*inverse(a)'), **big)
        R(m + '.adjugate', 'zcm::adjugate(a)', 'a:' + m, m, spec=lambda a, n=n: adj(a, n))
        R(m + '.adjugate.law', 'zcm::adjugate(a) * a', 'a:' + m, m, spec=lambda a, n=n: [det(a, n) * x for x in ident(n)])
        R(m + '.adjugateTranspose', 'zcm::adjugateTranspose(a)', 'a:' + m, m, spec=lambda a, n=n: tr(adj(a, n), n))
        R(m + '.inverseTranspose', 'zcm::inverseTranspose(a)', 'a:' + m, m, requires=inv, ensures=lambda a, r, n=n: goals_equal(mmul(tr(r, n), a, n), ident(n), 'transpose(r)*a') + goals_equal(mmul(a, tr(r, n), n), ident(n), 'a*transpose(r)'), **big)
    return cs
