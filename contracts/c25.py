"""C25: quaternion interpolation."""
from .util import *

EPS = fc(2.0 ** -23)
LIM = fc(1 - 2.0 ** -23)


def inrange(t): return AND(t >= ZERO, t <= ONE)


def short(x, y):
    """y or -y, whichever is on the side of x"""
    return V([ite(dot(x, y) < ZERO, -b, b) for b in y])


def mixq(x, y, t): return V([a * (1 - t) + b * t for a, b in zip(x, y)])


def arc(x, y, t):
    z = short(x, y)
    th = fn('acos', ite(dot(x, y) < ZERO, -dot(x, y), dot(x, y)))
    return V([(SIN((1 - t) * th) * a + SIN(t * th) * b) / SIN(th) for a, b in zip(x, z)])


def absd(x, y): return ite(dot(x, y) < ZERO, -dot(x, y), dot(x, y))


def s_pair(rng): return [s_unit(rng, 4), s_unit(rng, 4), mpf(rng.uniform(0, 1))]


def s_near(rng):
    x = s_unit(rng, 4)
    y = [a + mpf(rng.uniform(-1, 1)) / 10000 for a in x]
    l = mpmath.sqrt(sum(a * a for a in y)) * rng.choice([1, -1])
    return [x, [a / l for a in y], mpf(rng.uniform(0, 1))]


def contracts():
    cs = []
    R = lambda *a, **k: cs.append(Contract(*a, theory='R', **k))
    P = 'x:quat,y:quat,t:float'
    R('lerp', 'zcm::lerp(x, y, t)', P, 'quat', requires=lambda x, y, t: inrange(t), sample=s_pair, spec=mixq)
    R('lerp.start', 'zcm::lerp(x, y, 0.0f)', 'x:quat,y:quat', 'quat', spec=lambda x, y: x)
    R('lerp.end', 'zcm::lerp(x, y, 1.0f)', 'x:quat,y:quat', 'quat', spec=lambda x, y: y)
    n = dict(requires=lambda x, y, t: AND(inrange(t), nonzero(mixq(x, y, t))), sample=s_pair)
    R('nlerp', 'zcm::nlerp(x, y, t)', P, 'quat', spec=lambda x, y, t: vdiv(mixq(x, y, t), norm(mixq(x, y, t))), **n)
    R('nlerp.unit', 'zcm::nlerp(x, y, t)', P, 'quat', ensures=lambda x, y, t, r: [G('real', dot(r, r), ONE, name='unit')], **n)
    e = dict(requires=lambda x, y: AND(unit(x), unit(y)), sample=lambda rng: s_pair(rng)[:2])
    R('nlerp.start', 'zcm::nlerp(x, y, 0.0f)', 'x:quat,y:quat', 'quat', spec=lambda x, y: x, **e)
    R('nlerp.end', 'zcm::nlerp(x, y, 1.0f)', 'x:quat,y:quat', 'quat', spec=lambda x, y: y, **e)
    far = dict(requires=lambda x, y, t: AND(unit(x), unit(y), inrange(t), absd(x, y) <= LIM), sample=s_pair)
    R('slerp', 'zcm::slerp(x, y, t)', P, 'quat', spec=arc, **far)
    R('slerp.unit', 'zcm::slerp(x, y, t)', P, 'quat', ensures=lambda x, y, t, r: [G('real', dot(r, r), ONE, name='unit')], **far)
    # constant speed: the angle from x grows linearly with t; dot(r, x) = cos(t * theta)
    R('slerp.speed', 'zcm::slerp(x, y, t)', P, 'quat', ensures=lambda x, y, t, r: [G('real', dot(r, x), COS(t * fn('acos', absd(x, y))), name='angle t*theta from x')], **far)
    near = dict(requires=lambda x, y, t: AND(unit(x), unit(y), inrange(t), absd(x, y) > LIM, absd(x, y) <= ONE), sample=lambda rng: s_near(rng))      # at most 1 by Cauchy-Schwarz
    # nearly equal arguments: the linear interpolation or still the arc, wherever the code puts the limit (arc multiplied out: sin may be 0)
    def either(x, y, t, r):
        z, th = short(x, y), fn('acos', absd(x, y))
        return [G('real', (r[i] - mixq(x, z, t)[i]) * (r[i] * SIN(th) - (SIN((ONE - t) * th) * x[i] + SIN(t * th) * z[i])), ZERO, name='linear or arc, component %s' % L[i]) for i in range(4)]
    R('slerp.near', 'zcm::slerp(x, y, t)', P, 'quat', ensures=either, opts={'noround': True}, **near)
    R('slerp.start', 'zcm::slerp(x, y, 0.0f)', 'x:quat,y:quat', 'quat', spec=lambda x, y: x, **e)
    R('slerp.end', 'zcm::slerp(x, y, 1.0f)', 'x:quat,y:quat', 'quat', spec=short, **e)
    # near-unit arguments: rounding can take the cosine past 1
    F = lambda *a, **k: cs.append(Contract(*a, theory='F', **k))
    def s_pair2(rng):
        x = s_near_unit(rng, 4)
        k = rng.random()
        y = x if k < .3 else [-a for a in x] if k < .4 else s_near_unit(rng, 4)
        if k < .2: y = [a + mpf(rng.uniform(-1, 1)) * rng.choice([1e-7, 1e-6, 1e-4]) for a in x]
        return [x, y, mpf(rng.choice([0, 1, .5, rng.uniform(0, 1)]))]
    F('slerp.machine', 'zcm::slerp(x, y, t)', P, 'quat', requires=lambda x, y, t: AND(box(1.01, x, y), inrange(t)), sample=s_pair2, ensures=lambda x, y, t, r: number(r))
    F('lerp.machine', 'zcm::lerp(x, y, t)', P, 'quat', requires=lambda x, y, t: AND(box(1.01, x, y), inrange(t)), sample=s_pair2, ensures=lambda x, y, t, r: within(2.03, r))
    return cs
