"""C24: rotation constructors and queries."""
from .util import *
import numpy as np

HALF = fc(0.5)
TWOPI_BELOW = fc(float(np.nextafter(np.float32(6.2831855), np.float32(0))))   # the largest float below 2*pi
ASSUMPTIONS = ['the float threshold of quat(u,v) for opposite vectors: within 0.26 degrees (1+cos < 1e-5) of opposite the contract asks for a unit quaternion that turns u onto v to that accuracy, elsewhere for the exact rotation']


def qaxis(angle, k): return V([SIN(angle * HALF) * k[0], SIN(angle * HALF) * k[1], SIN(angle * HALF) * k[2], COS(angle * HALF)])


def normalised(v): return V([x / norm(v) for x in v])


X, Y, Z = V([ONE, ZERO, ZERO]), V([ZERO, ONE, ZERO]), V([ZERO, ZERO, ONE])


def zyx(e): return mmul(rodrigues(e[2], Z), mmul(rodrigues(e[1], Y), rodrigues(e[0], X), 3), 3)


def contracts():
    cs = []
    R = lambda *a, **k: cs.append(Contract(*a, theory='R', **k))
    aa = dict(requires=lambda a, k: unit(k), sample=lambda rng: [rnd(rng, -7, 7), s_unit(rng, 3)])
    R('angleAxis', 'zcm::angleAxis(a, k)', 'a:float,k:vec3', 'quat', spec=lambda a, k: qaxis(a, k), **aa)
    R('angleAxis.rotation', 'zcm::angleAxis(a, k)', 'a:float,k:vec3', 'quat', ensures=lambda a, k, r: goals_equal(qmat(r), rodrigues(a, k), 'rotation matrix'), **aa)
    R('angleAxis.unit', 'zcm::angleAxis(a, k)', 'a:float,k:vec3', 'quat', ensures=lambda a, k, r: [G('real', dot(r, r), ONE, name='unit')], **aa)
    R('angle', 'zcm::angle(zcm::angleAxis(a, k))', 'a:float,k:vec3', 'float', requires=lambda a, k: AND(unit(k), a > ZERO, a <= TWOPI_BELOW), sample=lambda rng: [mpf(rng.uniform(0.01, 6.28)), s_unit(rng, 3)], spec=lambda a, k: a)
    R('axis', 'zcm::axis(zcm::angleAxis(a, k))', 'a:float,k:vec3', 'vec3', requires=lambda a, k: AND(unit(k), SIN(a * HALF) > ZERO), sample=lambda rng: [mpf(rng.uniform(0.01, 6.28)), s_unit(rng, 3)], spec=lambda a, k: k)
    # a rotation by nothing (or a full turn) has no axis of its own: any unit vector will do, and only a unit vector
    R('axis.unit', 'zcm::axis(q)', 'q:quat', 'vec3', requires=lambda q: unit(q), sample=lambda rng: [s_unit(rng, 4) if rng.random() < .6 else [mpf(0)] * 3 + [mpf(rng.choice((1, -1)))]], ensures=lambda q, r: [G('real', dot(r, r), ONE, name='unit')])
    ra = dict(requires=lambda q, a, v: nonzero(v), sample=lambda rng: [s_vec(rng, 4), rnd(rng, -7, 7), s_vec(rng, 3)])
    R('rotate', 'zcm::rotate(q, a, v)', 'q:quat,a:float,v:vec3', 'quat', spec=lambda q, a, v: qmul(q, qaxis(a, normalised(v))), **ra)
    R('euler', 'zcm::quat(e)', 'e:vec3', 'quat', spec=lambda e: qmul(qaxis(e[2], Z), qmul(qaxis(e[1], Y), qaxis(e[0], X))))
    R('euler.matrix', 'zcm::quat(e)', 'e:vec3', 'quat', ensures=lambda e, r: goals_equal(qmat(r), zyx(e), 'Rz Ry Rx'))
    R('euler.unit', 'zcm::quat(e)', 'e:vec3', 'quat', ensures=lambda e, r: [G('real', dot(r, r), ONE, name='unit')])
    S = lambda q: 2 * (q[3] * q[1] - q[0] * q[2])
    free = dict(requires=lambda q: AND(unit(q), S(q) > -ONE, S(q) < ONE), sample=lambda rng: [s_unit(rng, 4)])
    back = lambda q, e: goals_equal(zyx(e), qmat(q), 'Rz Ry Rx = R(q)')
    R('eulerAngles', 'zcm::eulerAngles(q)', 'q:quat', 'vec3', ensures=back, **free)
    R('pitch.yaw.roll', 'zcm::vec3(zcm::pitch(q), zcm::yaw(q), zcm::roll(q))', 'q:quat', 'vec3', ensures=back, **free)

    # gimbal lock: the pitch carries the whole remaining rotation (roll 0)
    A = lambda q: 2 * (q[1] * q[2] + q[3] * q[0])
    B = lambda q: q[3] * q[3] - q[0] * q[0] - q[1] * q[1] + q[2] * q[2]

    def s_lock(rng):
        t, s = mpf(rng.uniform(-3, 3)), rng.choice([1, -1])
        h = mpmath.sqrt(mpf(1) / 2)
        x, w = h * mpmath.sin(t), h * mpmath.cos(t)
        return [[x, s * w, -s * x, w]]
    R('pitch.lock', 'zcm::pitch(q)', 'q:quat', 'float', requires=lambda q: AND(unit(q), A(q).eq(ZERO), B(q).eq(ZERO), NOT(AND(q[0].eq(ZERO), q[3].eq(ZERO)))), sample=s_lock,
      spec=lambda q: 2 * fn('atan2', q[0], q[3]), opts={'noround': True})      # the precondition holds on a surface: rounding leaves it

    # shortest arc
    def s_uv(rng):
        u = s_vec(rng, 3)
        r = rng.random()
        if r < .3: return [u, [-x * mpf('1.5') for x in u]]
        if r < .4: return [u, [x * mpf('0.5') for x in u]]
        if r < .5: return [u, [-x + mpf(rng.uniform(-1, 1)) / 1000000 for x in u]]
        return [u, s_vec(rng, 3)]
    nn = lambda u, v: norm(u) * norm(v)
    both = dict(requires=lambda u, v: AND(nonzero(u), nonzero(v)), sample=s_uv, opts={'cost': 20, 'rtime': 200})
    R('arc.unit', 'zcm::quat(u, v)', 'u:vec3,v:vec3', 'quat', ensures=lambda u, v, r: [G('real', dot(r, r), ONE, name='unit')], **both)
    R('arc.near', 'zcm::quat(u, v)', 'u:vec3,v:vec3', 'quat', ensures=lambda u, v, r: [G('rtrue', dot(qrot(r, u), v) >= fc(0.99999) * nn(u, v), name='turns u onto v')], **both)
    away = dict(both, requires=lambda u, v: AND(nonzero(u), nonzero(v), dot(u, v) + nn(u, v) > fc(1e-5) * nn(u, v)))
    R('arc.exact', 'zcm::quat(u, v)', 'u:vec3,v:vec3', 'quat', ensures=lambda u, v, r: goals_equal(vscale(qrot(r, u), norm(v)), vscale(v, norm(u)), 'turns u onto v'), **away)
    R('arc.shortest', 'zcm::quat(u, v)', 'u:vec3,v:vec3', 'quat', ensures=lambda u, v, r: [G('real', dot(r[0:3], u), ZERO, name='axis perpendicular to u'), G('rtrue', r[3] >= ZERO, name='at most half a turn')], **both)
    def s_opp(rng): return [s_vec(rng, 3), mpf(rng.uniform(.1, 3))]
    R('arc.opposite', 'zcm::quat(u, u * -k)', 'u:vec3,k:float', 'quat', requires=lambda u, k: AND(nonzero(u), k > ZERO), sample=s_opp, ensures=lambda u, k, r: goals_equal(qrot(r, u), vneg(u), 'turns u onto -u') + [G('real', dot(r, r), ONE, name='unit')])
    R('arc.parallel', 'zcm::quat(u, u * k)', 'u:vec3,k:float', 'quat', requires=lambda u, k: AND(nonzero(u), k > ZERO), sample=s_opp, spec=lambda u, k: [ZERO, ZERO, ZERO, ONE])
    # rounding may take a unit quaternion slightly off unit length: the queries still return numbers
    F = lambda *a, **k: cs.append(Contract(*a, theory='F', **k))
    mq = dict(requires=lambda q: box(1.01, q), sample=lambda rng: [s_near_unit(rng, 4)], ensures=lambda q, r: number(r))
    for f in ('pitch', 'yaw', 'roll', 'angle'): F(f + '.machine', 'zcm::%s(q)' % f, 'q:quat', 'float', **mq)
    for f in ('axis', 'eulerAngles'): F(f + '.machine', 'zcm::%s(q)' % f, 'q:quat', 'vec3', **mq)
    def s_uv2(rng):
        u = s_mag(rng, 3, -2, 2)
        k = rng.random()
        if k < .3: return [u, [-x * mpf(rng.choice([1, 2, .3])) for x in u]]
        if k < .5:
            u = [mpf(0)] * 3
            u[rng.randrange(3)] = mpf(rng.choice([1, -1, .1, 7]))
            return [u, [-x for x in u]]
        return [u, s_mag(rng, 3, -2, 2)]
    F('arc.machine', 'zcm::quat(u, v)', 'u:vec3,v:vec3', 'quat', requires=lambda u, v: AND(box(1000, u, v), atleast(1e-3, u), atleast(1e-3, v)), sample=s_uv2, ensures=lambda u, v, r: number(r), opts={'cost': 5})
    return cs
