"""C23: quaternions and matrices represent the same rotation."""
from .util import *


def c23_rot(q):
    x, y, z, w = q
    return [1 - 2 * (y * y + z * z), 2 * (x * y + w * z), 2 * (x * z - w * y), 2 * (x * y - w * z), 1 - 2 * (x * x + z * z), 2 * (y * z + w * x), 2 * (x * z + w * y), 2 * (y * z - w * x), 1 - 2 * (x * x + y * y)]


def contracts():
    cs = []
    R = lambda *a, **k: cs.append(Contract(*a, theory='R', **k))
    uq = lambda q, *r: unit(q)
    sm = lambda n: (lambda rng: [s_unit(rng, 4), s_vec(rng, n)])
    R('rotate', 'q * v', 'q:quat,v:vec3', 'vec3', requires=uq, sample=sm(3), spec=qrot)
    R('rotate.length', 'q * v', 'q:quat,v:vec3', 'vec3', requires=uq, sample=sm(3), ensures=lambda q, v, r: [G('real', dot(r, r), dot(v, v), name='length preserved')])
    R('rotate.inverse', 'v * q', 'q:quat,v:vec3', 'vec3', requires=uq, sample=sm(3), spec=lambda q, v: qrot(qconj(q), v))
    R('rotate.inverse.undo', '(q * v) * q', 'q:quat,v:vec3', 'vec3', requires=uq, sample=sm(3), spec=lambda q, v: v)
    R('compose', '(p * q) * v', 'p:quat,q:quat,v:vec3', 'vec3', requires=lambda p, q, v: AND(unit(p), unit(q)), sample=lambda rng: [s_unit(rng, 4), s_unit(rng, 4), s_vec(rng, 3)], spec=lambda p, q, v: qrot(p, qrot(q, v)))
    R('compose.both', '(p * q) * v - p * (q * v)', 'p:quat,q:quat,v:vec3', 'vec3', requires=lambda p, q, v: AND(unit(p), unit(q)), sample=lambda rng: [s_unit(rng, 4), s_unit(rng, 4), s_vec(rng, 3)], spec=lambda p, q, v: [ZERO] * 3)
    one = dict(requires=unit, sample=lambda rng: [s_unit(rng, 4)])
    R('mat3_cast', 'zcm::mat3_cast(q)', 'q:quat', 'mat3', spec=qmat, **one)
    R('mat3_cast.apply', 'zcm::mat3_cast(q) * v - q * v', 'q:quat,v:vec3', 'vec3', requires=uq, sample=sm(3), spec=lambda q, v: [ZERO] * 3)
    def m4(q):
        m = qmat(q)
        return V(list(m[0:3]) + [ZERO] + list(m[3:6]) + [ZERO] + list(m[6:9]) + [ZERO, ZERO, ZERO, ZERO, ONE])
    R('mat4_cast', 'zcm::mat4_cast(q)', 'q:quat', 'mat4', spec=m4, **one)
    # r = q or r = -q, stated as: every product r_i r_j equals q_i q_j
    same = lambda q, r: [G('real', r[i] * r[j], q[i] * q[j], name='r%s r%s = q%s q%s' % (L[i], L[j], L[i], L[j])) for i in range(4) for j in range(i, 4)]
    R('quat_cast.mat3', 'zcm::quat_cast(zcm::mat3_cast(q))', 'q:quat', 'quat', ensures=same, **one)
    R('quat_cast.mat4', 'zcm::quat_cast(zcm::mat4_cast(q))', 'q:quat', 'quat', ensures=same, **one)
    F = lambda *a, **k: cs.append(Contract(*a, theory='F', **k))
    def s_rot(rng, n):
        q = s_near_unit(rng, 4)
        m = [float(x) for x in c23_rot(q)]
        return [[mpf(m[c * 3 + r]) if c < 3 and r < 3 else mpf(int(c == r)) for c in range(n) for r in range(n)]]
    for n in (3, 4):
        F('quat_cast%d.machine' % n, 'zcm::quat_cast(m)', 'm:mat%d' % n, 'quat', requires=lambda m: box(1.01, m), sample=lambda rng, n=n: s_rot(rng, n), ensures=lambda m, r: number(r))
    return cs
