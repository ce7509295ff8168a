"""C26: sRGB transfer functions."""
from .util import *

POW = lambda x, y: fn('pow', x, y)
K = lambda x: fc(x)


def encode(c, g):
    c = ite(c < ZERO, ZERO, ite(c > ONE, ONE, c))
    return ite(c < K(0.0031308), c * K(12.92), POW(c, ONE / g) * K(1.055) - K(0.055))


def decode(c, g):
    return ite(c <= K(0.04045), c / K(12.92), POW((c + K(0.055)) / K(1.055), g))


def taylor(c):
    s1 = sq(c)
    s2 = sq(s1)
    s3 = sq(s2)
    return K(0.662002687) * s1 + K(0.684122060) * s2 - K(0.323583601) * s3 - K(0.0225411470) * c


def contracts():
    cs = []
    R = lambda *a, **k: cs.append(Contract(*a, theory='R', **k))
    F = lambda *a, **k: cs.append(Contract(*a, theory='F', **k))
    for n in (3, 4):
        v = vt(n)
        both = lambda f: (lambda c, *g: [f(x, *g) for x in c[:3]] + list(c[3:]))
        smp = lambda rng, n=n: [[mpf(rng.choice([rng.uniform(-.2, 1.3), rng.uniform(0, .06), rng.uniform(0, 1)])) for _ in range(n)], mpf(rng.uniform(0.5, 3))]
        pos = lambda rng, n=n: [[mpf(rng.uniform(0, 1)) for _ in range(n)]]
        R(v + '.encode.gamma', 'zcm::convertLinearToSRGB(c, g)', 'c:%s,g:float' % v, v, requires=lambda c, g: g > ZERO, sample=smp, spec=both(encode))
        R(v + '.encode', 'zcm::convertLinearToSRGB(c)', 'c:' + v, v, requires=lambda c: AND(*[x >= ZERO for x in c[:3]]), sample=pos, spec=both(taylor))
        R(v + '.decode.gamma', 'zcm::convertSRGBToLinear(c, g)', 'c:%s,g:float' % v, v, requires=lambda c, g: g > ZERO, sample=smp, spec=both(decode))
        R(v + '.decode', 'zcm::convertSRGBToLinear(c)', 'c:' + v, v, sample=lambda rng, smp=smp: smp(rng)[:1], spec=both(lambda c: decode(c, K(2.4))))
    for id, call in (('encode', 'zcm::convertLinearToSRGB(c)'), ('encode.gamma', 'zcm::convertLinearToSRGB(c, g)'), ('decode', 'zcm::convertSRGBToLinear(c)'), ('decode.gamma', 'zcm::convertSRGBToLinear(c, g)')):
        F('vec4.%s.alpha' % id, '(%s).w' % call, 'c:vec4,g:float', 'float', spec=lambda c, g: c[3])
    F = lambda *a, **k: cs.append(Contract(*a, theory='F', **k))
    for n in (3, 4):
        t = 'vec%d' % n
        s = lambda rng, n=n: [[mpf(rng.choice([0, 1, -1, .04045, .0031308, -.055, -.1, 2, rng.uniform(-.2, 1.2)])) for _ in range(n)]]
        sg = lambda rng, s=s: s(rng) + [mpf(rng.uniform(.2, 5))]
        F(t + '.toLinear.machine', 'zcm::convertSRGBToLinear(c)', 'c:' + t, t, requires=lambda c: box(100, c), sample=s, ensures=lambda c, r: number(r))
        F(t + '.toLinear.gamma.machine', 'zcm::convertSRGBToLinear(c, g)', 'c:%s,g:float' % t, t, requires=lambda c, g: AND(box(100, c), fc(.1) <= g, g <= fc(10)), sample=sg, ensures=lambda c, g, r: number(r))
        F(t + '.toSRGB.gamma.machine', 'zcm::convertLinearToSRGB(c, g)', 'c:%s,g:float' % t, t, requires=lambda c, g: AND(box(100, c), fc(.1) <= g, g <= fc(10)), sample=sg, ensures=lambda c, g, r: number(r))
        F(t + '.toSRGB.machine', 'zcm::convertLinearToSRGB(c)', 'c:' + t, t, requires=lambda c: AND(*[AND(ZERO <= x, x <= fc(100)) for x in c]), sample=lambda rng, s=s: [[abs(x) for x in s(rng)[0]]], ensures=lambda c, r: number(r))
    return cs
