"""C04: constructors, indexing, raw data access."""
from .util import *
from .c03 import pick

ELT = {'vec': 'float', 'ivec': 'int', 'bvec': 'bool'}
ZER = {'vec': lambda: fc(0.0), 'ivec': lambda: ic(0, 32), 'bvec': lambda: FALSE}


def place(a, i, n, s):
    m = iop('urem', i, ic(n, 32))
    return [ite(m.eq(ic(k, 32)), s, a[k]) for k in range(n)]


def compositions(n):
    """ways of building n components out of scalars and at least one sub-vector, as declared"""
    return {2: [], 3: [(2, 1), (1, 2)], 4: [(3, 1), (1, 3), (2, 2), (2, 1, 1), (1, 2, 1), (1, 1, 2)]}[n]


def contracts():
    cs = []
    C = lambda *a, **k: cs.append(Contract(*a, theory='F', **k))
    for fam in ('vec', 'ivec', 'bvec'):
        e = ELT[fam]
        for n in (2, 3, 4):
            v = '%s%d' % (fam, n)
            C(v + '.default', 'zcm::%s()' % v, '', v, spec=lambda n=n, fam=fam: [ZER[fam]() for _ in range(n)])
            C(v + '.broadcast', 'zcm::%s(s)' % v, 's:' + e, v, spec=lambda s, n=n: [s] * n)
            C(v + '.elements', 'zcm::%s(%s)' % (v, ', '.join(L[:n])), ','.join(x + ':' + e for x in L[:n]), v, spec=lambda *a: list(a))
            C(v + '.make', 'zcm::make_%s(p)' % v, 'p:%s*%d' % (e, n), v, spec=lambda p: p)
            C(v + '.copy', 'zcm::%s(a)' % v, 'a:' + v, v, spec=lambda a: a)
            C(v + '.assign', 'a = b', 'a:%s&,b:%s' % (v, v), spec=lambda a, b: {'a': b})
            if fam != 'bvec': C(v + '.no_init', 'zcm::%s r{zcm::no_init_t{}}; for (unsigned i = 0; i < %d; ++i) r[i] = a[i]; o = r;' % (v, n), 'a:%s,o:%s!' % (v, v), stmt=True, spec=lambda a: {'o': a})
            C(v + '.index.const', 'a[i %% %du]' % n, 'a:%s,i:uint' % v, e, spec=lambda a, i, n=n: pick(a, i, n))
            C(v + '.index.read', 'a[i %% %du]' % n, 'a:%s&,i:uint' % v, e, spec=lambda a, i, n=n: {'ret': pick(a, i, n), 'a': a})
            C(v + '.index.write', 'a[i %% %du] = s;' % n, 'a:%s&,i:uint,s:%s' % (v, e), stmt=True, spec=lambda a, i, s, n=n: place(a, i, n, s))
            for k in range(n):
                C(v + '.index.const%d' % k, 'a[%d]' % k, 'a:' + v, e, spec=lambda a, k=k: a[k])
                C(v + '.member.%s' % L[k], 'a.%s' % L[k], 'a:' + v, e, spec=lambda a, k=k: a[k])
            if fam != 'ivec':
                C(v + '.value_ptr.const', 'zcm::value_ptr(a)[i %% %du]' % n, 'a:%s,i:uint' % v, e, spec=lambda a, i, n=n: pick(a, i, n))
                C(v + '.value_ptr.read', 'zcm::value_ptr(a)[i %% %du]' % n, 'a:%s&,i:uint' % v, e, spec=lambda a, i, n=n: {'ret': pick(a, i, n), 'a': a})
                C(v + '.value_ptr.write', 'zcm::value_ptr(a)[i %% %du] = s;' % n, 'a:%s&,i:uint,s:%s' % (v, e), stmt=True, spec=lambda a, i, s, n=n: place(a, i, n, s))
            for comp in compositions(n):
                args, ps, k = [], [], 0
                for j, w in enumerate(comp):
                    nm = 'abcd'[j]
                    args.append(nm)
                    ps.append('%s:%s' % (nm, e if w == 1 else '%s%d' % (fam, w)))
                C(v + '.from_' + '_'.join(map(str, comp)), 'zcm::%s(%s)' % (v, ', '.join(args)), ','.join(ps), v, spec=lambda *a: [y for x in a for y in lst(x)])
    for n in (2, 3, 4):
        v = vt(n)
        C(v + '.from_int', 'zcm::%s(s)' % v, 's:int', v, spec=lambda s, n=n: [sitofp(s)] * n)
    C('quat.default', 'zcm::quat()', '', 'quat', spec=lambda: [ZERO, ZERO, ZERO, ONE])
    C('quat.wxyz.ctor', 'zcm::quat(w, x, y, z)', 'w:float,x:float,y:float,z:float', 'quat', spec=lambda w, x, y, z: [x, y, z, w])
    C('quat.wxyz', 'zcm::quat::wxyz(w, x, y, z)', 'w:float,x:float,y:float,z:float', 'quat', spec=lambda w, x, y, z: [x, y, z, w])
    C('quat.s_v', 'zcm::quat(s, v)', 's:float,v:vec3', 'quat', spec=lambda s, v: list(v) + [s])
    C('quat.v_s', 'zcm::quat(v, s)', 'v:vec3,s:float', 'quat', spec=lambda v, s: list(v) + [s])
    C('quat.make', 'zcm::make_quat(p)', 'p:float*4', 'quat', spec=lambda p: p)
    C('quat.no_init', 'zcm::quat r{zcm::no_init_t{}}; for (unsigned i = 0; i < 4; ++i) r[i] = a[i]; o = r;', 'a:quat,o:quat!', stmt=True, spec=lambda a: {'o': a})
    C('quat.assign', 'a = b', 'a:quat&,b:quat', spec=lambda a, b: {'a': b})
    C('quat.index.const', 'a[i % 4u]', 'a:quat,i:uint', 'float', spec=lambda a, i: pick(a, i, 4))
    C('quat.index.read', 'a[i % 4u]', 'a:quat&,i:uint', 'float', spec=lambda a, i: {'ret': pick(a, i, 4), 'a': a})
    C('quat.index.write', 'a[i % 4u] = s;', 'a:quat&,i:uint,s:float', stmt=True, spec=lambda a, i, s: place(a, i, 4, s))
    for k in range(4): C('quat.member.' + L[k], 'a.' + L[k], 'a:quat', 'float', spec=lambda a, k=k: a[k])
    C('quat.value_ptr.const', 'zcm::value_ptr(a)[i % 4u]', 'a:quat,i:uint', 'float', spec=lambda a, i: pick(a, i, 4))
    C('quat.value_ptr.read', 'zcm::value_ptr(a)[i % 4u]', 'a:quat&,i:uint', 'float', spec=lambda a, i: {'ret': pick(a, i, 4), 'a': a})
    C('quat.value_ptr.write', 'zcm::value_ptr(a)[i % 4u] = s;', 'a:quat&,i:uint,s:float', stmt=True, spec=lambda a, i, s: place(a, i, 4, s))
    return cs
