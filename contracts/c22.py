"""C22: quaternion algebra."""
from .util import *
from .c03 import pick


def qinv(q): return V([x / dot(q, q) for x in qconj(q)])


def contracts():
    cs = []
    E = lambda *a, **k: cs.append(Contract(*a, theory='FR', **k))
    F = lambda *a, **k: cs.append(Contract(*a, theory='F', **k))
    R = lambda *a, **k: cs.append(Contract(*a, theory='R', **k))
    E('plus', '+a', 'a:quat', 'quat', spec=lambda a: a)
    E('neg', '-a', 'a:quat', 'quat', spec=vneg)
    E('add', 'a + b', 'a:quat,b:quat', 'quat', spec=vadd)
    E('sub', 'a - b', 'a:quat,b:quat', 'quat', spec=vsub)
    E('mul.scalar', 'a * s', 'a:quat,s:float', 'quat', spec=vscale)
    E('scalar.mul', 's * a', 'a:quat,s:float', 'quat', spec=vscale)
    E('div.scalar', 'a / s', 'a:quat,s:float', 'quat', requires=lambda a, s: NOT(s.eq(ZERO)), spec=vdiv)
    E('scalar.div', 's / a', 'a:quat,s:float', 'quat', requires=lambda a, s: AND(*[NOT(x.eq(ZERO)) for x in a]), spec=lambda a, s: [s / x for x in a])
    R('mul', 'a * b', 'a:quat,b:quat', 'quat', spec=qmul)
    R('mul.assoc', '(a * b) * c - a * (b * c)', 'a:quat,b:quat,c:quat', 'quat', spec=lambda a, b, c: [ZERO] * 4)
    R('mul.identity', 'zcm::quat() * a', 'a:quat', 'quat', spec=lambda a: a)
    R('mul.identity.right', 'a * zcm::quat()', 'a:quat', 'quat', spec=lambda a: a)
    E('conjugate', 'zcm::conjugate(a)', 'a:quat', 'quat', spec=qconj)
    R('inverse.left', 'zcm::inverse(a) * a', 'a:quat', 'quat', requires=nonzero, spec=lambda a: [ZERO, ZERO, ZERO, ONE])
    R('inverse.right', 'a * zcm::inverse(a)', 'a:quat', 'quat', requires=nonzero, spec=lambda a: [ZERO, ZERO, ZERO, ONE])
    R('inverse', 'zcm::inverse(a)', 'a:quat', 'quat', requires=nonzero, spec=qinv)
    E('add.assign', 'a += b;', 'a:quat&,b:quat', stmt=True, spec=vadd)
    E('sub.assign', 'a -= b;', 'a:quat&,b:quat', stmt=True, spec=vsub)
    R('mul.assign', 'a *= b;', 'a:quat&,b:quat', stmt=True, spec=qmul)
    E('mul.assign.scalar', 'a *= s;', 'a:quat&,s:float', stmt=True, spec=vscale)
    E('div.assign.scalar', 'a /= s;', 'a:quat&,s:float', stmt=True, requires=lambda a, s: NOT(s.eq(ZERO)), spec=vdiv)
    E('add.self', 'a += a;', 'a:quat&', stmt=True, spec=lambda a: vadd(a, a))
    E('sub.self', 'a -= a;', 'a:quat&', stmt=True, spec=lambda a: vsub(a, a))
    R('mul.self', 'a *= a;', 'a:quat&', stmt=True, spec=lambda a: qmul(a, a))
    for k in range(4):
        m = L[k]
        E('mul.own.' + m, 'a *= a.%s;' % m, 'a:quat&', stmt=True, spec=lambda a, k=k: vscale(a, a[k]))
        E('div.own.' + m, 'a /= a.%s;' % m, 'a:quat&', stmt=True, requires=lambda a, k=k: NOT(a[k].eq(ZERO)), spec=lambda a, k=k: vdiv(a, a[k]))
        F('member.' + m, 'a.' + m, 'a:quat', 'float', spec=lambda a, k=k: a[k])
        F('index.%d' % k, 'a[%du]' % k, 'a:quat', 'float', spec=lambda a, k=k: a[k])
        F('index.write.%d' % k, 'a[%du] = s;' % k, 'a:quat&,s:float', stmt=True, spec=lambda a, s, k=k: [s if i == k else x for i, x in enumerate(a)])
    F('wxyz', 'zcm::quat::wxyz(w, x, y, z)', 'w:float,x:float,y:float,z:float', 'quat', spec=lambda w, x, y, z: [x, y, z, w])
    F('ctor', 'zcm::quat(w, x, y, z)', 'w:float,x:float,y:float,z:float', 'quat', spec=lambda w, x, y, z: [x, y, z, w])
    F('ctor.s_v', 'zcm::quat(s, v)', 's:float,v:vec3', 'quat', spec=lambda s, v: list(v) + [s])
    F('ctor.v_s', 'zcm::quat(v, s)', 'v:vec3,s:float', 'quat', spec=lambda v, s: list(v) + [s])
    F('default', 'zcm::quat()', '', 'quat', spec=lambda: [ZERO, ZERO, ZERO, ONE])
    F('make', 'zcm::make_quat(p)', 'p:float*4', 'quat', spec=lambda p: p)
    F('make.value_ptr', 'zcm::make_quat(zcm::value_ptr(a))', 'a:quat', 'quat', spec=lambda a: a)
    F('index.const', 'a[i % 4u]', 'a:quat,i:uint', 'float', spec=lambda a, i: pick(a, i, 4))
    return cs
