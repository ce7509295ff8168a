"""C12: dot, length, distance, normalize."""
from .util import *


def contracts():
    cs = []
    C = lambda *a, **k: cs.append(Contract(*a, theory='R', **k))
    for t, n in [('float', 1), ('vec2', 2), ('vec3', 3), ('vec4', 4), ('quat', 4)]:
        p1, p2 = 'a:' + t, 'a:%s,b:%s' % (t, t)
        d = lambda a, b: dot(lst(a), lst(b))
        C(t + '.dot', 'zcm::dot(a, b)', p2, 'float', spec=d)
        C(t + '.length', 'zcm::length(a)', p1, 'float', spec=lambda a: sq(dot(lst(a), lst(a))))
        C(t + '.length.law', 'zcm::length(a)', p1, 'float', ensures=lambda a, r: [G('rtrue', ZERO <= r, name='non-negative'), G('real', r * r, dot(lst(a), lst(a)), name='square')])
        C(t + '.length2', 'zcm::length2(a)', p1, 'float', spec=lambda a: dot(lst(a), lst(a)))
        if t != 'quat':
            C(t + '.distance', 'zcm::distance(a, b)', p2, 'float', spec=lambda a, b: norm(vsub(lst(a), lst(b))))
            C(t + '.distance2', 'zcm::distance2(a, b)', p2, 'float', spec=lambda a, b: dot(vsub(lst(a), lst(b)), vsub(lst(a), lst(b))))
        if t != 'float':
            C(t + '.normalize', 'zcm::normalize(a)', p1, t, requires=nonzero, spec=lambda a: vdiv(a, norm(a)))
            C(t + '.normalize.unit', 'zcm::normalize(a)', p1, t, requires=nonzero, ensures=lambda a, r: [G('real', dot(r, r), ONE, name='unit length')])
    # machine arithmetic: no overflow, underflow or NaN for magnitudes between 1e-15 and 1e15
    F = lambda *a, **k: cs.append(Contract(*a, theory='F', **k))
    for t, n in [('vec2', 2), ('vec3', 3), ('vec4', 4), ('quat', 4)]:
        s1, s2 = (lambda rng, n=n: [s_mag(rng, n)]), (lambda rng, n=n: [s_mag(rng, n), s_mag(rng, n)])
        ok = lambda a: AND(box(1e15, a), atleast(1e-15, a))
        F(t + '.normalize.machine', 'zcm::normalize(a)', 'a:' + t, t, requires=ok, sample=s1, ensures=lambda a, r: within(1.000001, r))
        F(t + '.length.machine', 'zcm::length(a)', 'a:' + t, 'float', requires=ok, sample=s1, ensures=lambda a, r: [G('true', AND(fc(.99e-15) <= r, r <= fc(2.01e15)), name='positive and finite')])
        if t != 'quat': F(t + '.distance.machine', 'zcm::distance(a, b)', 'a:%s,b:%s' % (t, t), 'float', requires=lambda a, b: box(1e15, a, b), sample=s2, ensures=lambda a, b, r: [G('true', AND(ZERO <= r, r <= fc(4.01e15)), name='non-negative and finite')])
    return cs
