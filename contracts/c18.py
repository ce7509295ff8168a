"""C18: translate, rotate, scale post-multiply the documented transform."""
from .util import *


def affine(b3, t=(ZERO, ZERO, ZERO)):
    """4x4 from a 3x3 block and a translation"""
    return V(list(b3[0:3]) + [ZERO] + list(b3[3:6]) + [ZERO] + list(b3[6:9]) + [ZERO] + list(t) + [ONE])


def diag(v): return V([v[0], ZERO, ZERO, ZERO, v[1], ZERO, ZERO, ZERO, v[2]])


def axis_of(v):
    l = norm(v)
    return V([x / l for x in v])


def s_rot(rng): return [s_vec(rng, 16), rnd(rng, -7, 7), s_vec(rng, 3)]


def contracts():
    cs = []
    C = lambda *a, **k: cs.append(Contract(*a, theory='R', **k))
    C('translate', 'zcm::translate(m, v)', 'm:mat4,v:vec3', 'mat4', spec=lambda m, v: mmul(m, affine(ident(3), v), 4))
    C('scale', 'zcm::scale(m, v)', 'm:mat4,v:vec3', 'mat4', spec=lambda m, v: mmul(m, affine(diag(v)), 4))
    C('rotate', 'zcm::rotate(m, angle, v)', 'm:mat4,angle:float,v:vec3', 'mat4', requires=lambda m, angle, v: nonzero(v), sample=s_rot,
      spec=lambda m, angle, v: mmul(m, affine(rodrigues(angle, axis_of(v))), 4))
    rot = lambda id, ens: C(id, 'zcm::rotate(zcm::mat4(), angle, v)', 'angle:float,v:vec3', 'mat4', requires=lambda angle, v: nonzero(v), sample=lambda rng: s_rot(rng)[1:], ensures=ens)
    blk = lambda m: V([at(m, 4, c, r) for c in range(3) for r in range(3)])
    rot('rotate.orthogonal', lambda angle, v, m: goals_equal(mmul(tr(blk(m), 3), blk(m), 3), ident(3), 'R^T R = I'))
    rot('rotate.proper', lambda angle, v, m: [G('real', det(blk(m), 3), ONE, name='det R = 1')])
    rot('rotate.axis', lambda angle, v, m: goals_equal(mvec(blk(m), v, 3), v, 'R axis = axis'))
    rot('rotate.affine', lambda angle, v, m: goals_equal([at(m, 4, c, 3) for c in range(4)] + [at(m, 4, 3, r) for r in range(3)], [ZERO] * 3 + [ONE] + [ZERO] * 3, 'bottom row and translation'))
    # right-handed: with a the unit axis and w perpendicular to it, R w = cos w + sin (a x w)
    rot('rotate.handed', lambda angle, v, m: goals_equal(mvec(blk(m), cross(v, V([ONE, ZERO, ZERO])), 3), vadd(vscale(cross(v, V([ONE, ZERO, ZERO])), COS(angle)), vscale(cross(axis_of(v), cross(v, V([ONE, ZERO, ZERO]))), SIN(angle))), 'right-handed'))
    return cs
