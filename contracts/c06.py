"""C06: equality and ordering."""
from .util import *

FT = ['vec2', 'vec3', 'vec4', 'quat', 'mat2', 'mat3', 'mat4']


def lex(a, b):
    r = FALSE
    for x, y in reversed(list(zip(a, b))): r = OR(icmp('slt', x, y), AND(x.eq(y), r))
    return r


def contracts():
    cs = []
    C = lambda *a, **k: cs.append(Contract(*a, theory='F', **k))
    for t in FT:
        same = lambda a, b: AND(*[fcmp_eq(x, y) for x, y in zip(a, b)])
        C(t + '.eq', 'a == b', 'a:%s,b:%s' % (t, t), 'bool', spec=same)
        C(t + '.ne', 'a != b', 'a:%s,b:%s' % (t, t), 'bool', spec=lambda a, b, same=same: NOT(same(a, b)))
        C(t + '.eq.self', 'a == a', 'a:%s' % t, 'bool', spec=lambda a: AND(*[NOT(isnan(x)) for x in a]))
        C(t + '.ne.self', 'a != a', 'a:%s' % t, 'bool', spec=lambda a: OR(*[isnan(x) for x in a]))
    for n in (2, 3, 4):
        for t, e in ((ivt(n), lambda x, y: x.eq(y)), (bvt(n), IFF)):
            C(t + '.eq', 'a == b', 'a:%s,b:%s' % (t, t), 'bool', spec=lambda a, b, e=e: AND(*[e(x, y) for x, y in zip(a, b)]))
            C(t + '.ne', 'a != b', 'a:%s,b:%s' % (t, t), 'bool', spec=lambda a, b, e=e: NOT(AND(*[e(x, y) for x, y in zip(a, b)])))
        t = ivt(n)
        ab, abc = 'a:%s,b:%s' % (t, t), 'a:%s,b:%s,c:%s' % (t, t, t)
        C(t + '.lt', 'a < b', ab, 'bool', spec=lex)
        C(t + '.gt', 'a > b', ab, 'bool', spec=lambda a, b: lex(b, a))
        C(t + '.le', 'a <= b', ab, 'bool', spec=lambda a, b: NOT(lex(b, a)))
        C(t + '.ge', 'a >= b', ab, 'bool', spec=lambda a, b: NOT(lex(a, b)))
        yes = lambda *a: TRUE
        C(t + '.irreflexive', '!(a < a) && !(a > a) && a <= a && a >= a', 'a:' + t, 'bool', spec=yes)
        C(t + '.trichotomy', '(a < b) + (a > b) + (a == b) == 1', ab, 'bool', spec=yes)
        C(t + '.mutual', '(a < b) == (b > a) && (a <= b) == !(a > b) && (a >= b) == !(a < b) && (a <= b) == (a < b || a == b)', ab, 'bool', spec=yes)
        C(t + '.transitive', '!(a < b && b < c) || a < c', abc, 'bool', spec=yes)
        C(t + '.transitive.le', '!(a <= b && b <= c) || a <= c', abc, 'bool', spec=yes)
    return cs
