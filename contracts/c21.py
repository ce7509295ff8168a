"""C21: decompose_orthogonal."""
from .util import *
from .c18 import affine, diag

CODE = '''zcm::mat4 m(%s); const zcm::mat4 keep(m); zcm::vec3 S{zcm::no_init_t{}}; zcm::quat Q{zcm::no_init_t{}}; zcm::vec3 T{zcm::no_init_t{}}; zcm::decompose_orthogonal(m, S, Q, T); *scale_ = S; *orient_ = Q; *trans_ = T; *after_ = m;'''


def contracts():
    cs = []
    # an arbitrary matrix whose columns are the scaled columns of a rotation: the relation is the precondition,
    # stated with the ghost values t, q, s
    def pre(t, q, s):
        return AND(unit(q), s[0] > ZERO, s[1] > ZERO, s[2] > ZERO)

    def smp(rng):
        q = s_unit(rng, 4)
        return [s_vec(rng, 3), q, [mpf(rng.uniform(0.1, 4)) for _ in range(3)]]

    # m = T * R * S, elements computed from the ghost values by this client
    el = []
    for c in range(3):
        el += ['r%d%d * s[%du]' % (c, r, c) for r in range(3)] + ['0.0f']
    el += ['t[0u]', 't[1u]', 't[2u]', '1.0f']
    rot = '''const float x = q.x, y = q.y, z = q.z, w = q.w;
const float r00 = 1.0f - 2.0f * (y * y + z * z), r01 = 2.0f * (x * y + w * z), r02 = 2.0f * (x * z - w * y);
const float r10 = 2.0f * (x * y - w * z), r11 = 1.0f - 2.0f * (x * x + z * z), r12 = 2.0f * (y * z + w * x);
const float r20 = 2.0f * (x * z + w * y), r21 = 2.0f * (y * z - w * x), r22 = 1.0f - 2.0f * (x * x + y * y);
'''
    def mk(id, ens, th='R', **k):
        cs.append(Contract('decompose.' + id, rot + CODE % ', '.join(el), 't:vec3,q:quat,s:vec3,scale:vec3!,orient:quat!,trans:vec3!,after:mat4!', stmt=True, theory=th, requires=pre, sample=smp, ensures=ens, opts={'cost': 20, 'rtime': 400}, **k))
    mk('translation', lambda t, q, s, sc, o, tr_, m: goals_equal(tr_, t, 'translation'))
    mk('scale', lambda t, q, s, sc, o, tr_, m: goals_equal(sc, s, 'scale'))
    mk('unit', lambda t, q, s, sc, o, tr_, m: [G('real', dot(o, o), ONE, name='unit orientation')])
    for k in range(3):
        mk('rotation.col%d' % k, lambda t, q, s, sc, o, tr_, m, k=k: goals_equal(qmat(o)[3 * k:3 * k + 3], qmat(q)[3 * k:3 * k + 3], 'rotation column %d' % k))
    cs.append(Contract('decompose.input', 'zcm::vec3 S{zcm::no_init_t{}}; zcm::quat Q{zcm::no_init_t{}}; zcm::vec3 T{zcm::no_init_t{}}; zcm::decompose_orthogonal(m, S, Q, T);', 'm:mat4&', stmt=True, theory='F', spec=lambda m: m))
    # machine arithmetic: whatever rounding has done to the matrix, columns of moderate size never give NaN
    cols = lambda m: [m[4 * c:4 * c + 3] for c in range(3)]
    def smach(rng):
        from .c23 import c23_rot
        q = s_near_unit(rng, 4)
        r = c23_rot(q)
        s = [mpf(rng.choice([1, 1, rng.uniform(.1, 4)])) for _ in range(3)]
        return [[r[3 * c + k] * s[c] if c < 3 and k < 3 else mpf(int(k == 3)) if c == 3 else mpf(0) for c in range(4) for k in range(4)]]
    code = CODE.replace('zcm::mat4 m(%s); const zcm::mat4 keep(m);', '').replace('*after_ = m;', '')
    parts = [('scale', lambda sc, o, t: number(sc) + number(t))] + [('orient%d' % i, lambda sc, o, t, i=i: number([o[i]])) for i in range(4)]
    for nm, f in parts:
        cs.append(Contract('decompose.machine.' + nm, code, 'm:mat4,scale:vec3!,orient:quat!,trans:vec3!', stmt=True, theory='F',
            requires=lambda m: AND(box(1000, m), *[atleast(1e-3, c) for c in cols(m)]), sample=smach, opts={'cost': 20, 'ivtime': 150},
            ensures=lambda m, sc, o, t, f=f: f(sc, o, t)))
    return cs
