"""C19: orthographic and perspective projections."""
from .util import *

TAN = lambda x: fn('tan', x)
ASSUMPTIONS = ['perspective*: fovy is between 0 and pi in the sense that tan(fovy/2) > 0; aspect > 0 and aspect != FLT_EPSILON (the library asserts the latter)']


def s_ortho(rng):
    return [rnd(rng) for _ in range(9)]


def s_persp(rng):
    n = mpf(rng.uniform(0.01, 5))
    return [mpf(rng.uniform(0.1, 3)), mpf(rng.uniform(0.2, 4)), n, n + mpf(rng.uniform(0.1, 50)), rnd(rng), rnd(rng), rnd(rng)]


def contracts():
    cs = []
    C = lambda *a, **k: cs.append(Contract(*a, theory='R', **k))
    for hand in ('LH', 'RH'):
        for rng in ('ZO', 'NO'):
            sgn = 1 if hand == 'LH' else -1
            # a, b, c are box coordinates: 0 at left/bottom/near, 1 at right/top/far
            def ens(l, r, b, t, n, f, u, v, w, m, sgn=sgn, rng=rng):
                p = V([l + u * (r - l), b + v * (t - b), float(sgn) * (n + w * (f - n)), ONE])
                q = mvec(m, p, 4)
                return goals_equal(q, [2 * u - 1, 2 * v - 1, w if rng == 'ZO' else 2 * w - 1, ONE], 'clip')
            C('ortho%s_%s' % (hand, rng), 'zcm::ortho%s_%s(l, r, b, t, n, f)' % (hand, rng), 'l:float,r:float,b:float,t:float,n:float,f:float,u:float,v:float,w:float', 'mat4', sample=s_ortho,
              requires=lambda l, r, b, t, n, f, u, v, w: AND(NOT(l.eq(r)), NOT(b.eq(t)), NOT(n.eq(f))), ensures=ens)

            def pens(fovy, aspect, n, f, u, v, d, m, sgn=sgn, rng=rng):
                # the point at distance d in front of the viewer whose frustum coordinates are (u, v): edges at +-1
                h = TAN(fovy * fc(0.5)) * d
                q = mvec(m, V([u * aspect * h, v * h, float(sgn) * d, ONE]), 4)
                lo = ZERO if rng == 'ZO' else -ONE
                zn = mvec(m, V([ZERO, ZERO, float(sgn) * n, ONE]), 4)
                zf = mvec(m, V([ZERO, ZERO, float(sgn) * f, ONE]), 4)
                return goals_equal([q[0], q[1], q[3]], [u * d, v * d, d], 'clip x, y, w') + [
                    G('real', zn[2], lo * n, name='near plane'), G('real', zn[3], n, name='near w'), G('real', zf[2], f, name='far plane'), G('real', zf[3], f, name='far w')] + [
                    # depth does not depend on x and y
                    G('real', q[2], mvec(m, V([ZERO, ZERO, float(sgn) * d, ONE]), 4)[2], name='depth depends on distance only')]
            C('perspective%s_%s' % (hand, rng), 'zcm::perspective%s_%s(fovy, aspect, n, f)' % (hand, rng), 'fovy:float,aspect:float,n:float,f:float,u:float,v:float,d:float', 'mat4', sample=s_persp,
              requires=lambda fovy, aspect, n, f, u, v, d: AND(TAN(fovy * fc(0.5)) > ZERO, aspect > ZERO, NOT(aspect.eq(fc(2.0 ** -23))), n > ZERO, n < f), ensures=pens)

    def oens(l, r, b, t, u, v, w, m):
        q = mvec(m, V([l + u * (r - l), b + v * (t - b), w, ONE]), 4)
        return goals_equal(q, [2 * u - 1, 2 * v - 1, -w, ONE], 'clip')
    C('ortho', 'zcm::ortho(l, r, b, t)', 'l:float,r:float,b:float,t:float,u:float,v:float,w:float', 'mat4', sample=lambda rng: s_ortho(rng)[:7],
      requires=lambda l, r, b, t, u, v, w: AND(NOT(l.eq(r)), NOT(b.eq(t))), ensures=oens)
    return cs
