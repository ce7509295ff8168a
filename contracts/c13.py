"""C13: cross, reflect, refract, faceforward, orthogonal."""
from .util import *


def refract(I, N, eta):
    d = dot(N, I)
    k = 1 - eta * eta * (1 - d * d)
    return [ite(k < ZERO, ZERO, eta * i - (eta * d + sq(k)) * n) for i, n in zip(I, N)]


def contracts():
    cs = []
    C = lambda *a, **k: cs.append(Contract(*a, theory='R', **k))
    C('vec3.cross', 'zcm::cross(a, b)', 'a:vec3,b:vec3', 'vec3', spec=cross)
    C('vec3.cross.orthogonal', 'zcm::cross(a, b)', 'a:vec3,b:vec3', 'vec3', ensures=lambda a, b, r: [G('real', dot(r, a), ZERO, name='orthogonal to a'), G('real', dot(r, b), ZERO, name='orthogonal to b')])
    C('vec3.cross.anti', 'zcm::cross(a, b) + zcm::cross(b, a)', 'a:vec3,b:vec3', 'vec3', spec=lambda a, b: [ZERO] * 3)
    for t, n in [('float', 1), ('vec2', 2), ('vec3', 3), ('vec4', 4)]:
        C(t + '.reflect', 'zcm::reflect(i, n)', 'i:%s,n:%s' % (t, t), t, spec=lambda i, n: [x - 2 * dot(lst(n), lst(i)) * y for x, y in zip(lst(i), lst(n))])
        C(t + '.refract', 'zcm::refract(i, n, eta)', 'i:%s,n:%s,eta:float' % (t, t), t, spec=lambda i, n, eta: refract(lst(i), lst(n), eta))
        C(t + '.faceforward', 'zcm::faceforward(n, i, r)', 'n:%s,i:%s,r:%s' % (t, t, t), t, spec=lambda n, i, r: [ite(dot(lst(r), lst(i)) < ZERO, x, -x) for x in lst(n)])
    C('vec3.orthogonal', 'zcm::orthogonal(v)', 'v:vec3', 'vec3', requires=nonzero, ensures=lambda v, r: [G('real', dot(r, v), ZERO, name='perpendicular'), G('rtrue', nonzero(r), name='non-zero')])
    C('vec3.orthogonal_branchless', 'zcm::orthogonal_branchless(v)', 'v:vec3', 'vec3', requires=unit, sample=lambda rng: [s_unit(rng, 3)], ensures=lambda v, r: [G('real', dot(r, v), ZERO, name='perpendicular'), G('rtrue', nonzero(r), name='non-zero')])
    F = lambda *a, **k: cs.append(Contract(*a, theory='F', **k))
    for t, n in [('vec2', 2), ('vec3', 3), ('vec4', 4)]:
        F(t + '.refract.machine', 'zcm::refract(i, n, eta)', 'i:%s,n:%s,eta:float' % (t, t), t, requires=lambda i, n, eta: box(100, i, n, eta), sample=lambda rng, n=n: [s_near_unit(rng, n), s_near_unit(rng, n), mpf(rng.uniform(0, 2))],
          ensures=lambda i, n, eta, r: number(r))
    return cs
