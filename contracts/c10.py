"""C10: trigonometric and exponential functions."""
import math
from .util import *

ONE_ARG = ['sin', 'cos', 'tan', 'asin', 'acos', 'atan', 'sinh', 'cosh', 'tanh', 'asinh', 'acosh', 'atanh']
EXPO = ['exp', 'exp2', 'log', 'log2', 'sqrt', 'cbrt']


def contracts():
    cs = []
    C = lambda *a, **k: cs.append(Contract(*a, theory='FR', opts={'relwit': 1e-3}, **k))
    for t, n in [('float', 1), ('vec2', 2), ('vec3', 3), ('vec4', 4), ('quat', 4)]:
        if t != 'quat':
            for nm in ONE_ARG: C('%s.%s' % (t, nm), 'zcm::%s(a)' % nm, 'a:' + t, t, spec=lambda a, nm=nm: [fn(nm, x) for x in lst(a)])
            C('%s.atan2' % t, 'zcm::atan(a, b)', 'a:%s,b:%s' % (t, t), t, spec=lambda a, b: [fn('atan2', y, x) for y, x in zip(lst(a), lst(b))])
            C(t + '.degrees', 'zcm::degrees(a)', 'a:' + t, t, spec=lambda a: [x * dreal(180 / math.pi) for x in lst(a)])
            C(t + '.radians', 'zcm::radians(a)', 'a:' + t, t, spec=lambda a: [x * dreal(math.pi / 180) for x in lst(a)])
        for nm in EXPO: C('%s.%s' % (t, nm), 'zcm::%s(a)' % nm, 'a:' + t, t, spec=lambda a, nm=nm: [fn(nm, x) for x in lst(a)])
        C(t + '.inversesqrt', 'zcm::inversesqrt(a)', 'a:' + t, t, requires=lambda a: [ZERO < x for x in lst(a)], spec=lambda a: [ONE / sq(x) for x in lst(a)])
        C(t + '.pow', 'zcm::pow(a, b)', 'a:%s,b:%s' % (t, t) if t != 'quat' else 'a:quat,b:float', t, spec=lambda a, b: [fn('pow', x, y) for x, y in zip(lst(a), lst(b) if len(lst(b)) > 1 else lst(b) * 4)])
    return cs


def dreal(x): return fc(x)
