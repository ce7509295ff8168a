"""C05: component names and swizzles."""
import itertools
from .util import *
from .c02 import OPS as IOPS

CONFIGS = ('debug', 'release')


def contracts():
    cs = []
    for fam, e in (('vec', 'float'), ('ivec', 'int')):
        for n in (2, 3, 4):
            v = '%s%d' % (fam, n)
            for names in NAMES:
                nm = names[:n]
                for k in range(n):
                    c = nm[k]
                    cs.append(Contract('%s.%s.read' % (v, c), 'a.%s' % c, 'a:' + v, e, theory='F', spec=lambda a, k=k: a[k]))
                    cs.append(Contract('%s.%s.format_as' % (v, c), 'format_as(a.%s)' % c, 'a:' + v, e, theory='F', spec=lambda a, k=k: a[k]))
                    cs.append(Contract('%s.%s.set' % (v, c), 'a.%s = s;' % c, 'a:%s&,s:%s' % (v, e), stmt=True, theory='F', spec=lambda a, s, k=k: upd(a, k, s)))
                    if fam == 'vec':
                        ops = {o: (f, None) for o, f in (('+', add), ('-', sub), ('*', mul), ('/', div))}
                    else:
                        ops = {o: (f, ok) for o, (_, f, ok) in IOPS.items()}
                    for o, (f, ok) in ops.items():
                        rq = (lambda a, s, k=k, ok=ok: ok(a[k], s)) if ok else None
                        cs.append(Contract('%s.%s.op%s' % (v, c, ''.join('%02x' % ord(x) for x in o)), 'a.%s %s= s;' % (c, o), 'a:%s&,s:%s' % (v, e), stmt=True, theory='F', requires=rq, spec=lambda a, s, k=k, f=f: upd(a, k, f(a[k], s)), sample=samp(n, o) if ok else None))
                    for o, d in (('++', 1), ('--', -1)):
                        if fam == 'vec':
                            step = lambda x, d=d: x + float(d)
                            rq = None
                        else:
                            step = lambda x, d=d: iop('add', x, ic(d, 32))
                            rq = lambda a, k=k, d=d: IOPS['+'][2](a[k], ic(d, 32))
                        w = 'inc' if d > 0 else 'dec'
                        cs.append(Contract('%s.%s.pre%s' % (v, c, w), '%sa.%s' % (o, c), 'a:%s&' % v, e, theory='F', requires=rq, spec=lambda a, k=k, step=step: {'a': upd(a, k, step(a[k])), 'ret': step(a[k])}))
                        cs.append(Contract('%s.%s.post%s' % (v, c, w), 'a.%s%s' % (c, o), 'a:%s&' % v, e, theory='F', requires=rq, spec=lambda a, k=k, step=step: {'a': upd(a, k, step(a[k])), 'ret': a[k]}))
                    # assigned from another vector's component of the same and of a different name
                    for j in range(n):
                        good = lambda a, b, k=k, j=j: {'a': upd(a, k, b[j])}
                        x = Contract('%s.%s.from_%s' % (v, c, nm[j]), 'a.%s = b.%s;' % (c, nm[j]), 'a:%s&,b:%s' % (v, v), stmt=True, theory='F', spec=good)
                        if j == k:
                            x.as_found = Contract(x.id, x.cxx, 'a:%s&,b:%s' % (v, v), stmt=True, theory='F', spec=lambda a, b: {'a': b})
                        cs.append(x)
                for ln in range(2, n + 1):
                    for idx in itertools.product(range(n), repeat=ln):
                        w = ''.join(nm[i] for i in idx)
                        cs.append(Contract('%s.%s' % (v, w), 'a.%s' % w, 'a:' + v, '%s%d' % (fam, ln), theory='F', spec=lambda a, idx=idx: [a[i] for i in idx]))
                        if names == 'xyzw' and idx in (tuple(range(ln)), tuple(range(ln))[::-1]):
                            cs.append(Contract('%s.%s.format_as' % (v, w), 'format_as(a.%s)' % w, 'a:' + v, '%s%d' % (fam, ln), theory='F', spec=lambda a, idx=idx: [a[i] for i in idx]))
    return cs


def upd(a, k, s): return [s if i == k else x for i, x in enumerate(a)]


def samp(n, o):
    def f(rng):
        from .c02 import draw
        nm = IOPS[o][0]
        a, b = draw(rng, nm)
        if nm == 'shl': b = rng.randint(0, 15)
        v = [rng.randint(0, 1 << 14) for _ in range(n)] if nm in ('shl', 'mul') else [rng.randint(-20000, 20000) for _ in range(n)]
        if nm == 'mul': b = rng.randint(-1000, 1000)
        return {'a': v, 's': [b]}
    return f
