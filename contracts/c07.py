"""C07: hashing."""
from .util import *

VALS = {'f': ['1.0f', '2.0f', '-3.5f', '0.15625f'], 'i': ['1', '2', '-3', '1000003'], 'B': ['false', 'true']}


def contracts():
    cs = []
    C = lambda *a, **k: cs.append(Contract(*a, theory='F', **k))
    types = ['%svec%d' % (p, n) for p in ('', 'i', 'b') for n in (2, 3, 4)] + ['quat', 'mat2', 'mat3', 'mat4']
    for t in types:
        cxx, kind, cnt = TYPES[t]
        C(t + '.consistent', '!(a == b) || zcm::hash(a) == zcm::hash(b)', 'a:%s,b:%s' % (t, t), 'bool', spec=lambda a, b: TRUE)
        C(t + '.std', 'std::hash<%s>()(a) == zcm::hash(a)' % cxx, 'a:' + t, 'bool', spec=lambda a: TRUE)
        for i in range(cnt):
            C('%s.depends%d' % (t, i), witness(t, kind, cnt, i), 'ret:bool!' if False else '', 'bool', spec=lambda: TRUE)
    for t, cxx in (('float', 'float'), ('int', 'int'), ('bool', 'bool'), ('uint', 'unsigned')):
        C(t + '.consistent', '!(a == b) || zcm::hash(a) == zcm::hash(b)', 'a:%s,b:%s' % (t, t), 'bool', spec=lambda a, b: TRUE)
        vs = ['0u', '1u'] if t == 'uint' else VALS[TYPES[t][1]]
        C(t + '.depends', ' || '.join('zcm::hash(%s) != zcm::hash(%s)' % (x, y) for x, y in zip(vs, vs[1:])), '', 'bool', spec=lambda: TRUE)
    return cs


def build(t, kind, cnt, vals):
    if t == 'quat': return 'zcm::quat::wxyz(%s, %s, %s, %s)' % (vals[3], vals[0], vals[1], vals[2])
    return 'zcm::%s(%s)' % (t, ', '.join(vals))


def witness(t, kind, cnt, i):
    """differing in component i only, over several bases"""
    out = []
    vs = VALS[kind]
    for base in range(3):
        b = [vs[(base + k * (base > 0)) % len(vs)] for k in range(cnt)]
        for v in vs:
            if v == b[i]: continue
            c = list(b)
            c[i] = v
            out.append('zcm::hash(%s) != zcm::hash(%s)' % (build(t, kind, cnt, b), build(t, kind, cnt, c)))
    return ' || '.join(out[:6])
