"""C01: float vector arithmetic."""
from .util import *

OPS = {'+': add, '-': sub, '*': mul, '/': div}
NM = {'+': 'add', '-': 'sub', '*': 'mul', '/': 'div'}


def contracts():
    cs = []
    for n in (2, 3, 4):
        v = vt(n)
        for o, f in OPS.items():
            nm = NM[o]
            cs.append(Contract('%s.%s.vv' % (v, nm), 'a %s b' % o, 'a:%s,b:%s' % (v, v), v, theory='F', spec=lambda a, b, f=f: [f(x, y) for x, y in zip(a, b)]))
            cs.append(Contract('%s.%s.vs' % (v, nm), 'a %s s' % o, 'a:%s,s:float' % v, v, theory='F', spec=lambda a, s, f=f: [f(x, s) for x in a]))
            cs.append(Contract('%s.%s.sv' % (v, nm), 's %s a' % o, 's:float,a:%s' % v, v, theory='F', spec=lambda s, a, f=f: [f(s, x) for x in a]))
            cs.append(Contract('%s.%s.assign.v' % (v, nm), 'a %s= b' % o, 'a:%s&,b:%s' % (v, v), theory='F', spec=lambda a, b, f=f: [f(x, y) for x, y in zip(a, b)]))
            cs.append(Contract('%s.%s.assign.s' % (v, nm), 'a %s= s' % o, 'a:%s&,s:float' % v, theory='F', spec=lambda a, s, f=f: [f(x, s) for x in a]))
            cs.append(Contract('%s.%s.assign.self' % (v, nm), 'a %s= a' % o, 'a:%s&' % v, theory='F', spec=lambda a, f=f: [f(x, x) for x in a]))
            for i in range(n):
                cs.append(Contract('%s.%s.assign.own%d' % (v, nm, i), 'a %s= a[%d]' % (o, i), 'a:%s&' % v, theory='F', spec=lambda a, f=f, i=i: [f(x, a[i]) for x in a]))
        cs.append(Contract(v + '.plus', '+a', 'a:' + v, v, theory='F', spec=lambda a: a))
        cs.append(Contract(v + '.minus', '-a', 'a:' + v, v, theory='F', spec=lambda a: vneg(a)))
        for o, d in (('++', 1.0), ('--', -1.0)):
            k = 'inc' if d > 0 else 'dec'
            cs.append(Contract('%s.pre%s' % (v, k), '%sa' % o, 'a:%s&' % v, v, theory='F',
                               spec=lambda a, d=d: {'a': [x + d for x in a], 'ret': [x + d for x in a]}))
            cs.append(Contract('%s.post%s' % (v, k), 'a%s' % o, 'a:%s&' % v, v, theory='F', spec=lambda a, d=d: {'a': [x + d for x in a], 'ret': a}))
            cs.append(Contract('%s.pre%s.ref' % (v, k), '&(%sa) == &a' % o, 'a:%s&' % v, 'bool', theory='F', spec=lambda a, d=d: {'a': [x + d for x in a], 'ret': TRUE}))
    return cs
