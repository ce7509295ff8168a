"""C09: rounding, fract, mod, fma."""
from .util import *

ROUND = {'floor': 'floor', 'ceil': 'ceil', 'trunc': 'trunc', 'round': 'round', 'roundEven': 'rint'}


H = 1 + 2.0 ** -12
# products that are ties in binary32, with an addend far below the precision of binary64; plain products that round
FMA = [(H, H, 2.0 ** -100), (H, H, -2.0 ** -100), (1 + 2.0 ** -23, 1 - 2.0 ** -23, -1.0), (1e30, 1e30, float('-inf')), (3e38, 2.0, -3e38)]


def contracts():
    cs = []
    C = lambda *a, **k: cs.append(Contract(*a, theory='Fl', **k))
    for t, n in [('float', 1), ('vec2', 2), ('vec3', 3), ('vec4', 4)]:
        for nm, f in ROUND.items():
            C('%s.%s' % (t, nm), 'zcm::%s(a)' % nm, 'a:' + t, t, spec=lambda a, f=f: [fn(f, x) for x in lst(a)])
        C(t + '.fract', 'zcm::fract(a)', 'a:' + t, t, spec=lambda a: [x - fn('floor', x) for x in lst(a)])
        C(t + '.mod', 'zcm::mod(a, b)', 'a:%s,b:%s' % (t, t), t, spec=lambda a, b: [x - y * fn('floor', x / y) for x, y in zip(lst(a), lst(b))])
        if n > 1: C(t + '.mod.scalar', 'zcm::mod(a, s)', 'a:%s,s:float' % t, t, spec=lambda a, y: [x - y * fn('floor', x / y) for x in a])
        C(t + '.fma', 'zcm::fma(a, b, c)', 'a:%s,b:%s,c:%s' % (t, t, t), t, spec=lambda a, b, c: [fn('fma', x, y, z) for x, y, z in zip(lst(a), lst(b), lst(c))],
          opts={'cands': [{'a': [x] * n, 'b': [y] * n, 'c': [z] * n} for x, y, z in FMA]})
    return cs
