"""C15: matrix constructors, conversions, indexing - all column-major, all exact."""
from .util import *
from .c03 import pick


def resize(a, n, m):
    """upper-left block of an n x n matrix in an m x m matrix, identity elsewhere"""
    return [a[c * n + r] if c < n and r < n else ONE if c == r else ZERO for c in range(m) for r in range(m)]


def idx(i, n, k): return iop('urem', i, ic(n, 32)).eq(ic(k, 32))


def contracts():
    cs = []
    C = lambda *a, **k: cs.append(Contract(*a, theory='F', **k))
    for n in (2, 3, 4):
        m, v, nn = 'mat%d' % n, 'vec%d' % n, n * n
        C(m + '.default', 'zcm::%s()' % m, '', m, spec=lambda n=n: ident(n))
        C(m + '.no_init', 'zcm::%s r{zcm::no_init_t{}}; for (unsigned c = 0; c < %d; c++) r[c] = a[c]; *out_ = r;' % (m, n), 'a:%s,out:%s!' % (m, m), stmt=True, spec=lambda a: a)
        C(m + '.diagonal', 'zcm::%s(s)' % m, 's:float', m, spec=lambda s, n=n: [s if c == r else ZERO for c in range(n) for r in range(n)])
        C(m + '.columns', 'zcm::%s(%s)' % (m, ', '.join('c%d' % i for i in range(n))), ','.join('c%d:%s' % (i, v) for i in range(n)), m, spec=lambda *c: [x for k in c for x in k])
        C(m + '.elements', 'zcm::%s(%s)' % (m, ', '.join('e%d' % i for i in range(nn))), ','.join('e%d:float' % i for i in range(nn)), m, spec=lambda *e: list(e))
        C(m + '.make', 'zcm::make_%s(p)' % m, 'p:float*%d' % nn, m, spec=lambda p: p)
        C(m + '.copy', 'zcm::%s(a)' % m, 'a:' + m, m, spec=lambda a: a)
        C(m + '.assign', 'b = a;', 'a:%s,b:%s&' % (m, m), stmt=True, spec=lambda a, b: a)
        C(m + '.size', 'sizeof(zcm::%s) / sizeof(float)' % m, '', 'uint', spec=lambda nn=nn: ic(nn, 32))
        for k in range(n):
            C('%s.column%d.const' % (m, k), 'a[%du]' % k, 'a:' + m, v, spec=lambda a, k=k, n=n: a[k * n:k * n + n])
            C('%s.column%d.write' % (m, k), 'a[%du] = c;' % k, 'a:%s&,c:%s' % (m, v), stmt=True, spec=lambda a, c, k=k, n=n: a[:k * n] + c + a[k * n + n:])
            for r in range(n):
                C('%s.element%d%d.write' % (m, k, r), 'a[%du][%du] = s;' % (k, r), 'a:%s&,s:float' % m, stmt=True, spec=lambda a, s, j=k * n + r: [s if i == j else x for i, x in enumerate(a)])
                C('%s.element%d%d.nonconst' % (m, k, r), 'a[%du][%du]' % (k, r), 'a:%s&' % m, 'float', spec=lambda a, j=k * n + r: {'a': a, 'ret': a[j]})
        C(m + '.column.const', 'a[i % {0}u]'.format(n), 'a:%s,i:uint' % m, v, spec=lambda a, i, n=n: [pick([a[c * n + r] for c in range(n)], i, n) for r in range(n)])
        C(m + '.column.write', 'a[i % {0}u] = c;'.format(n), 'a:%s&,i:uint,c:%s' % (m, v), stmt=True, spec=lambda a, i, c, n=n: [ite(idx(i, n, k), c[r], a[k * n + r]) for k in range(n) for r in range(n)])
        C(m + '.element.const', 'a[i % {0}u][j % {0}u]'.format(n), 'a:%s,i:uint,j:uint' % m, 'float', spec=lambda a, i, j, n=n: pick([pick(a[c * n:c * n + n], j, n) for c in range(n)], i, n))
        C(m + '.value_ptr.const', 'zcm::value_ptr(a)[i % {0}u]'.format(nn), 'a:%s,i:uint' % m, 'float', spec=lambda a, i, nn=nn: pick(a, i, nn))
        C(m + '.value_ptr.write', 'zcm::value_ptr(a)[i % {0}u] = s;'.format(nn), 'a:%s&,i:uint,s:float' % m, stmt=True, spec=lambda a, i, s, nn=nn: [ite(idx(i, nn, k), s, a[k]) for k in range(nn)])
        C(m + '.make.value_ptr', 'zcm::make_%s(zcm::value_ptr(a))' % m, 'a:' + m, m, spec=lambda a: a)
    C('mat3.from_mat2', 'zcm::mat3(a)', 'a:mat2', 'mat3', spec=lambda a: resize(a, 2, 3))
    C('mat4.from_mat3', 'zcm::mat4(a)', 'a:mat3', 'mat4', spec=lambda a: resize(a, 3, 4))
    C('mat3.to_mat2', 'static_cast<zcm::mat2>(a)', 'a:mat3', 'mat2', spec=lambda a: resize(a, 3, 2))
    C('mat4.to_mat3', 'static_cast<zcm::mat3>(a)', 'a:mat4', 'mat3', spec=lambda a: resize(a, 4, 3))
    C('mat2.via_mat3', 'static_cast<zcm::mat2>(zcm::mat3(a))', 'a:mat2', 'mat2', spec=lambda a: a)
    C('mat3.via_mat4', 'static_cast<zcm::mat3>(zcm::mat4(a))', 'a:mat3', 'mat3', spec=lambda a: a)
    return cs
