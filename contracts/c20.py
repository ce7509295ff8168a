"""C20: lookAt and quatLookAt."""
from .util import *

ASSUMPTIONS = ['up is not parallel to the viewing direction: cross(up, direction) != 0']


def blk(m): return V([at(m, 4, c, r) for c in range(3) for r in range(3)])


def row(m, r): return V([at(m, 4, c, r) for c in range(3)])


def contracts():
    cs = []
    C = lambda *a, **k: cs.append(Contract(*a, theory='R', **k))
    for hand, sgn in (('LH', ONE), ('RH', -ONE)):
        look = lambda id, ens: C('lookAt%s.%s' % (hand, id), 'zcm::lookAt%s(eye, center, up)' % hand, 'eye:vec3,center:vec3,up:vec3', 'mat4',
                                 requires=lambda e, c, u: nonzero(cross(vsub(c, e), u)), sample=lambda rng: [s_vec(rng, 3), s_vec(rng, 3), s_vec(rng, 3)], ensures=ens)
        look('affine', lambda e, c, u, m: goals_equal([at(m, 4, k, 3) for k in range(4)], [ZERO, ZERO, ZERO, ONE], 'last row'))
        look('orthonormal', lambda e, c, u, m: goals_equal(mmul(blk(m), tr(blk(m), 3), 3), ident(3), 'R R^T = I'))
        look('proper', lambda e, c, u, m: [G('real', det(blk(m), 3), ONE, name='det R = 1')])
        look('eye', lambda e, c, u, m: goals_equal(mvec(m, V(list(e) + [ONE]), 4), [ZERO, ZERO, ZERO, ONE], 'eye to origin'))

        def dirn(e, c, u, m, sgn=sgn):
            d = vsub(c, e)
            return goals_equal(mvec(blk(m), d, 3), [ZERO, ZERO, sgn * norm(d)], 'direction to z axis')
        look('direction', dirn)

        def upw(e, c, u, m):
            p = mvec(blk(m), u, 3)
            return [G('real', p[0], ZERO, name='up has x = 0'), G('rtrue', p[1] > ZERO, name='up has y > 0')]
        look('up', upw)
        q = lambda id, ens: C('quatLookAt%s.%s' % (hand, id), 'zcm::quatLookAt%s(direction, up)' % hand, 'direction:vec3,up:vec3', 'quat',
                              requires=lambda d, u: AND(unit(d), nonzero(cross(d, u))), sample=lambda rng: [s_unit(rng, 3), s_vec(rng, 3)], ensures=ens, opts={'cost': 20, 'rtime': 400})
        q('unit', lambda d, u, r: [G('real', dot(r, r), ONE, name='unit quaternion')])
        q('z', lambda d, u, r, sgn=sgn: goals_equal(qmat(r)[6:9], [sgn * x for x in d], 'z axis'))
        def x(d, u, r, sgn=sgn):
            a = cross(u, [sgn * t for t in d])
            return goals_equal(qmat(r)[0:3], [t / norm(a) for t in a], 'x axis')
        q('x', x)
    return cs
