"""C14: octahedral encoding."""
from .util import *


def fabs(x): return fn('fabs', x)


def sq_pt(rng):
    return [[mpf(rng.choice([rng.uniform(-1, 1), rng.uniform(-1, 1), 1, -1, 0])) for _ in range(2)]]


def contracts():
    cs = []
    C = lambda *a, **k: cs.append(Contract(*a, theory='R', **k))
    s = lambda rng: [s_unit(rng, 3)]
    C('encode.range', 'zcm::encode_octahedral(v)', 'v:vec3', 'vec2', requires=unit, sample=s, opts={'fpsafe': 40000},
      ensures=lambda v, r: [G('rtrue', AND(x >= -ONE, x <= ONE), name='component in [-1,1]') for x in r])
    C('encode.decode', 'zcm::decode_octahedral(zcm::encode_octahedral(v))', 'v:vec3', 'vec3', requires=unit, sample=s, spec=lambda v: v)
    C('decode.unit', 'zcm::decode_octahedral(e)', 'e:vec2', 'vec3', sample=sq_pt,
      requires=lambda e: AND(*[c for x in e for c in (x >= -ONE, x <= ONE)]),
      ensures=lambda e, r: [G('real', dot(r, r), ONE, name='unit length')])
    F = lambda *a, **k: cs.append(Contract(*a, theory='F', **k))
    near = dict(requires=lambda v: AND(box(2, v), atleast(.5, v)), sample=lambda rng: [s_near_unit(rng, 3)])
    F('encode.range.machine', 'zcm::encode_octahedral(v)', 'v:vec3', 'vec2', ensures=lambda v, r: within(1, r), **near)
    F('decode.machine', 'zcm::decode_octahedral(e)', 'e:vec2', 'vec3', requires=lambda e: box(1, e), sample=sq_pt, ensures=lambda e, r: within(1.000001, r))
    return cs
