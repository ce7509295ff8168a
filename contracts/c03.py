"""C03: boolean vectors, all/any, relational functions."""
from .util import *

BOPS = {'&&': ('and', lambda a, b: AND(a, b)), '||': ('or', lambda a, b: OR(a, b)), '^': ('xor', lambda a, b: bxor(a, b))}
ASG = {'&=': ('and', lambda a, b: AND(a, b)), '|=': ('or', lambda a, b: OR(a, b)), '^=': ('xor', lambda a, b: bxor(a, b))}
INF = fc(float('inf'))
REL = {
    'lessThan': lambda x, y: fcmp_lt(x, y),
    'lessThanEqual': lambda x, y: fcmp_le(x, y),
    'greaterThan': lambda x, y: fcmp_lt(y, x),
    'greaterThanEqual': lambda x, y: fcmp_le(y, x),
    'equal': lambda x, y: fcmp_eq(x, y),
    'notEqual': lambda x, y: NOT(fcmp_eq(x, y)),
}


def isinf(x): return fcmp_eq(fabs(x), INF)


def contracts():
    cs = []
    C = lambda *a, **k: cs.append(Contract(*a, theory='F', **k))
    for n in (2, 3, 4):
        b, v = bvt(n), vt(n)
        C(b + '.not', '!a', 'a:' + b, b, spec=lambda a: [NOT(x) for x in a])
        for o, (nm, f) in BOPS.items():
            C('%s.%s.vv' % (b, nm), 'a %s b' % o, 'a:%s,b:%s' % (b, b), b, spec=lambda a, c, f=f: [f(x, y) for x, y in zip(a, c)])
            C('%s.%s.vs' % (b, nm), 'a %s s' % o, 'a:%s,s:bool' % b, b, spec=lambda a, s, f=f: [f(x, s) for x in a])
            C('%s.%s.sv' % (b, nm), 's %s a' % o, 's:bool,a:%s' % b, b, spec=lambda s, a, f=f: [f(s, x) for x in a])
        for o, (nm, f) in ASG.items():
            C('%s.%s.assign.v' % (b, nm), 'a %s b' % o, 'a:%s&,b:%s' % (b, b), spec=lambda a, c, f=f: [f(x, y) for x, y in zip(a, c)])
            C('%s.%s.assign.s' % (b, nm), 'a %s s' % o, 'a:%s&,s:bool' % b, spec=lambda a, s, f=f: [f(x, s) for x in a])
            C('%s.%s.assign.self' % (b, nm), 'a %s a' % o, 'a:%s&' % b, spec=lambda a, f=f: [f(x, x) for x in a])
            for i in range(n): C('%s.%s.assign.own%d' % (b, nm, i), 'a %s a[%d]' % (o, i), 'a:%s&' % b, spec=lambda a, f=f, i=i: [f(x, a[i]) for x in a])
        C(b + '.eq', 'a == b', 'a:%s,b:%s' % (b, b), 'bool', spec=lambda a, c: AND(*[IFF(x, y) for x, y in zip(a, c)]))
        C(b + '.ne', 'a != b', 'a:%s,b:%s' % (b, b), 'bool', spec=lambda a, c: NOT(AND(*[IFF(x, y) for x, y in zip(a, c)])))
        C(b + '.all', 'zcm::all(a)', 'a:' + b, 'bool', spec=lambda a: AND(*a))
        C(b + '.any', 'zcm::any(a)', 'a:' + b, 'bool', spec=lambda a: OR(*a))
        C(b + '.default', 'zcm::%s()' % b, '', b, spec=lambda n=n: [FALSE] * n)
        C(b + '.broadcast', 'zcm::%s(s)' % b, 's:bool', b, spec=lambda s, n=n: [s] * n)
        C(b + '.elements', 'zcm::%s(%s)' % (b, ', '.join(L[:n])), ','.join(x + ':bool' for x in L[:n]), b, spec=lambda *a: list(a))
        C(b + '.make', 'zcm::make_%s(p)' % b, 'p:bool*%d' % n, b, spec=lambda p: p)
        C(b + '.index.const', 'a[i % {0}u]'.format(n), 'a:%s,i:uint' % b, 'bool', spec=lambda a, i, n=n: pick(a, i, n))
        C(b + '.index.write', 'a[i % {0}u] = s;'.format(n), 'a:%s&,i:uint,s:bool' % b, stmt=True, spec=lambda a, i, s, n=n: [ite(iop('urem', i, ic(n, 32)).eq(ic(k, 32)), s, a[k]) for k in range(n)])
        C(b + '.from_ivec', 'static_cast<zcm::%s>(a)' % b, 'a:' + ivt(n), b, spec=lambda a: [NOT(x.eq(ic(0, 32))) for x in a])
        for i in range(n):
            C('%s.member.%s' % (b, L[i]), 'a.%s' % L[i], 'a:' + b, 'bool', spec=lambda a, i=i: a[i])
        for nm, f in REL.items():
            C('%s.%s' % (v, nm), 'zcm::%s(a, b)' % nm, 'a:%s,b:%s' % (v, v), b, spec=lambda a, c, f=f: [f(x, y) for x, y in zip(a, c)])
        C(b + '.equal', 'zcm::equal(a, b)', 'a:%s,b:%s' % (b, b), b, spec=lambda a, c: [IFF(x, y) for x, y in zip(a, c)])
        C(b + '.notEqual', 'zcm::notEqual(a, b)', 'a:%s,b:%s' % (b, b), b, spec=lambda a, c: [bxor(x, y) for x, y in zip(a, c)])
        C(v + '.isnan', 'zcm::isnan(a)', 'a:' + v, b, spec=lambda a: [isnan(x) for x in a])
        C(v + '.isinf', 'zcm::isinf(a)', 'a:' + v, b, spec=lambda a: [isinf(x) for x in a])
    b = 'bvec3'
    C('bvec3.2_1', 'zcm::bvec3(a, s)', 'a:bvec2,s:bool', b, spec=lambda a, s: list(a) + [s])
    C('bvec3.1_2', 'zcm::bvec3(s, a)', 's:bool,a:bvec2', b, spec=lambda s, a: [s] + list(a))
    for nm, f in (('equal', REL['equal']), ('notEqual', REL['notEqual'])):
        C('quat.%s' % nm, 'zcm::%s(a, b)' % nm, 'a:quat,b:quat', 'bvec4', spec=lambda a, c, f=f: [f(x, y) for x, y in zip(a, c)])
    C('float.isnan', 'zcm::isnan(a)', 'a:float', 'bool', spec=lambda a: isnan(a))
    C('float.isinf', 'zcm::isinf(a)', 'a:float', 'bool', spec=lambda a: isinf(a))
    C('quat.isnan', 'zcm::isnan(a)', 'a:quat', 'bvec4', spec=lambda a: [isnan(x) for x in a])
    C('quat.isinf', 'zcm::isinf(a)', 'a:quat', 'bvec4', spec=lambda a: [isinf(x) for x in a])
    return cs


def pick(a, i, n):
    r = a[n - 1]
    m = iop('urem', i, ic(n, 32))
    for k in range(n - 2, -1, -1): r = ite(m.eq(ic(k, 32)), a[k], r)
    return r
