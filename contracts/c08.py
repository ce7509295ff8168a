"""C08: min, max, clamp, abs, sign, step, mix, smoothstep."""
from .util import *
from zv.execir import noovf

IMIN = ic(1 << 31, 32)
IZ, I1, IM1 = ic(0, 32), ic(1, 32), ic(-1, 32)


def num(*xs): return [NOT(isnan(x)) for x in xs]
def fsign(x): return ite(ZERO < x, ONE, ite(x < ZERO, fc(-1.0), ZERO))
def fsnz(x): return ite(ZERO <= x, ONE, fc(-1.0))
def isign(x): return ite(icmp('sgt', x, IZ), I1, ite(icmp('slt', x, IZ), IM1, IZ))
def isnz(x): return ite(icmp('sge', x, IZ), I1, IM1)
def imin(x, y): return ite(icmp('slt', y, x), y, x)
def imax(x, y): return ite(icmp('slt', x, y), y, x)
def among(r, xs): return OR(*([fcmp_eq(r, x) for x in xs] + [AND(isnan(r), isnan(x)) for x in xs]))
def amongi(r, xs): return OR(*[r.eq(x) for x in xs])


def smooth(e0, e1, x):
    t = gmin(gmax((x - e0) / (e1 - e0), ZERO), ONE)
    return t * t * (3 - 2 * t)


def contracts():
    cs = []
    C = lambda *a, **k: cs.append(Contract(*a, **k))
    for t, n in [('float', 1), ('vec2', 2), ('vec3', 3), ('vec4', 4)]:
        p1, p2, p3 = 'a:' + t, 'a:%s,b:%s' % (t, t), 'a:%s,b:%s,c:%s' % (t, t, t)
        m1 = lambda f: (lambda a: [f(x) for x in lst(a)])
        m2 = lambda f: (lambda a, b: [f(x, y) for x, y in zip(lst(a), lst(b))])
        m3 = lambda f: (lambda a, b, c: [f(x, y, z) for x, y, z in zip(lst(a), lst(b), lst(c))])
        nums = lambda *a: num(*[x for y in a for x in lst(y)])
        C(t + '.abs', 'zcm::abs(a)', p1, t, theory='Fl', spec=m1(fabs))
        C(t + '.sign', 'zcm::sign(a)', p1, t, theory='Fl', requires=nums, spec=m1(fsign))
        C(t + '.signNotZero', 'zcm::signNotZero(a)', p1, t, theory='Fl', requires=nums, spec=m1(fsnz))
        for nm, f in (('min', gmin), ('max', gmax)):
            C('%s.%s' % (t, nm), 'zcm::%s(a, b)' % nm, p2, t, theory='Fl', spec=m2(f))        # GLSL: the first argument unless the comparison holds, also for NaN
            C('%s.%s.argument' % (t, nm), 'zcm::%s(a, b)' % nm, p2, t, theory='Fl', ensures=lambda a, b, r: [G('true', among(z, (x, y)), name='ret[%d]' % i) for i, (x, y, z) in enumerate(zip(lst(a), lst(b), lst(r)))])
        C(t + '.clamp', 'zcm::clamp(a, b, c)', p3, t, theory='Fl', requires=lambda a, b, c, nums=nums: nums(a, b, c) + [x <= y for x, y in zip(lst(b), lst(c))], spec=m3(lambda x, lo, hi: ite(x < lo, lo, ite(hi < x, hi, x))))
        C(t + '.clamp.argument', 'zcm::clamp(a, b, c)', p3, t, theory='Fl', ensures=lambda a, b, c, r: [G('true', among(z, s), name='ret[%d]' % i) for i, (z, s) in enumerate(zip(lst(r), zip(lst(a), lst(b), lst(c))))])
        C(t + '.step', 'zcm::step(a, b)', p2, t, theory='Fl', spec=m2(lambda e, x: ite(x < e, ZERO, ONE)))
        C(t + '.smoothstep', 'zcm::smoothstep(a, b, c)', p3, t, theory='R', requires=lambda a, b, c: [x < y for x, y in zip(lst(a), lst(b))], spec=m3(smooth))
        mixr = lambda x, y, s: x * (1 - s) + y * s
        C(t + '.mix.same', 'zcm::mix(a, b, c)', p3, t, theory='R', spec=m3(mixr))
        if n > 1: C(t + '.mix.scalar', 'zcm::mix(a, b, s)', p2 + ',s:float', t, theory='R', spec=lambda a, b, s, mixr=mixr: [mixr(x, y, s) for x, y in zip(a, b)])
        bt = 'bool' if n == 1 else bvt(n)
        C(t + '.mix.bool', 'zcm::mix(a, b, c)', '%s,c:%s' % (p2, bt), t, theory='F', spec=lambda a, b, c: [ite(s, y, x) for x, y, s in zip(lst(a), lst(b), lst(c))])
    for t, n in [('int', 1), ('ivec2', 2), ('ivec3', 3), ('ivec4', 4)]:
        p1, p2, p3 = 'a:' + t, 'a:%s,b:%s' % (t, t), 'a:%s,b:%s,c:%s' % (t, t, t)
        C(t + '.abs', 'zcm::abs(a)', p1, t, theory='F', requires=lambda a: [NOT(x.eq(IMIN)) for x in lst(a)], spec=lambda a: [ite(icmp('slt', x, IZ), iop('sub', IZ, x), x) for x in lst(a)])
        C(t + '.sign', 'zcm::sign(a)', p1, t, theory='F', spec=lambda a: [isign(x) for x in lst(a)])
        C(t + '.signNotZero', 'zcm::signNotZero(a)', p1, t, theory='F', spec=lambda a: [isnz(x) for x in lst(a)])
        C(t + '.min', 'zcm::min(a, b)', p2, t, theory='F', spec=lambda a, b: [imin(x, y) for x, y in zip(lst(a), lst(b))])
        C(t + '.max', 'zcm::max(a, b)', p2, t, theory='F', spec=lambda a, b: [imax(x, y) for x, y in zip(lst(a), lst(b))])
        C(t + '.clamp', 'zcm::clamp(a, b, c)', p3, t, theory='F', requires=lambda a, b, c: [icmp('sle', x, y) for x, y in zip(lst(b), lst(c))],
          spec=lambda a, b, c: [ite(icmp('slt', x, lo), lo, ite(icmp('sgt', x, hi), hi, x)) for x, lo, hi in zip(lst(a), lst(b), lst(c))])
        C(t + '.clamp.argument', 'zcm::clamp(a, b, c)', p3, t, theory='F', ensures=lambda a, b, c, r: [G('true', amongi(z, s), name='ret[%d]' % i) for i, (z, s) in enumerate(zip(lst(r), zip(lst(a), lst(b), lst(c))))])
    return cs
