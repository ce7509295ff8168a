"""C02: integer vector arithmetic."""
from .util import *
from zv.execir import noovf

IMIN = ic(1 << 31, 32)
Z = ic(0, 32)


def okdiv(a, b): return AND(NOT(b.eq(Z)), NOT(AND(a.eq(IMIN), b.eq(ic(-1, 32)))))
def okamt(a, b): return icmp('ult', b, ic(32, 32))
def okshl(a, b): return AND(okamt(a, b), icmp('sge', a, Z), iop('lshr', iop('shl', a, b), b).eq(a))


OPS = {
    '+': ('add', lambda a, b: iop('add', a, b), lambda a, b: noovf('add', a, b)),
    '-': ('sub', lambda a, b: iop('sub', a, b), lambda a, b: noovf('sub', a, b)),
    '*': ('mul', lambda a, b: iop('mul', a, b), lambda a, b: noovf('mul', a, b)),
    '/': ('div', lambda a, b: iop('sdiv', a, b), okdiv),
    '%': ('mod', lambda a, b: iop('srem', a, b), okdiv),
    '&': ('and', lambda a, b: iop('and', a, b), None),
    '|': ('or', lambda a, b: iop('or', a, b), None),
    '^': ('xor', lambda a, b: iop('xor', a, b), None),
    '<<': ('shl', lambda a, b: iop('shl', a, b), okshl),
    '>>': ('shr', lambda a, b: iop('ashr', a, b), okamt),
}


def draw(rng, nm):
    """concrete operands for which the operation is defined"""
    r = rng.choice([lambda: rng.randint(-9, 9), lambda: rng.randint(-30000, 30000), lambda: rng.randint(0, 1 << 30)])
    a = r()
    if nm == 'add': return a, rng.randint(-1 << 20, 1 << 20)
    if nm == 'sub': return a, rng.randint(-1 << 20, 1 << 20)
    if nm == 'mul': return (rng.randint(-40000, 40000), rng.randint(-40000, 40000))
    if nm in ('div', 'mod'): return a, rng.choice([1, 2, 3, 7, -2, -3, 10, 1000, rng.randint(1, 100000)])
    if nm == 'shl':
        b = rng.randint(0, 20)
        return rng.randint(0, (1 << (31 - b)) - 1), b
    if nm == 'shr': return a, rng.randint(0, 31)
    return a, r()


def contracts():
    cs = []
    for n in (2, 3, 4):
        v = ivt(n)
        for o, (nm, f, ok) in OPS.items():
            rq = (lambda ok: lambda a, b: [ok(x, y) for x, y in zip(a, b)])(ok) if ok else None
            rs = (lambda ok: lambda a, s: [ok(x, s) for x in a])(ok) if ok else None
            rs2 = (lambda ok: lambda s, a: [ok(s, x) for x in a])(ok) if ok else None
            r1 = (lambda ok: lambda a: [ok(x, x) for x in a])(ok) if ok else None
            svv = lambda rng, nm=nm, n=n: dict(zip('ab', map(list, zip(*[draw(rng, nm) for _ in range(n)]))))
            def svs(rng, nm=nm, n=n, an='a', sn='s'):
                a, b = draw(rng, nm)
                if nm == 'shl': return {an: [rng.randint(0, (1 << (31 - b)) - 1) for _ in range(n)], sn: [b]}
                if nm == 'mul': return {an: [rng.randint(-40000, 40000) for _ in range(n)], sn: [b]}
                return {an: [rng.randint(-10000, 10000) for _ in range(n)], sn: [b]}
            def ssv(rng, nm=nm, n=n):
                if nm == 'shl': return {'s': [rng.randint(0, 1000)], 'a': [rng.randint(0, 20) for _ in range(n)]}
                return {'s': [rng.randint(-30000, 30000)], 'a': [draw(rng, nm)[1] % (1 << 30) if nm != 'mul' else rng.randint(-60000, 60000) for _ in range(n)]} if nm not in ('div', 'mod') else {'s': [rng.randint(-30000, 30000)], 'a': [draw(rng, nm)[1] for _ in range(n)]}
            s = {'vv': svv, 'vs': svs, 'sv': ssv} if ok else {}
            kw = {'theory': 'F', 'opts': {'fp': 15000}}
            cs.append(Contract('%s.%s.vv' % (v, nm), 'a %s b' % o, 'a:%s,b:%s' % (v, v), v, spec=lambda a, b, f=f: [f(x, y) for x, y in zip(a, b)], requires=rq, sample=s.get('vv'), **kw))
            cs.append(Contract('%s.%s.vs' % (v, nm), 'a %s s' % o, 'a:%s,s:int' % v, v, spec=lambda a, s, f=f: [f(x, s) for x in a], requires=rs, sample=s.get('vs'), **kw))
            cs.append(Contract('%s.%s.sv' % (v, nm), 's %s a' % o, 's:int,a:%s' % v, v, spec=lambda s, a, f=f: [f(s, x) for x in a], requires=rs2, sample=s.get('sv'), **kw))
            cs.append(Contract('%s.%s.assign.v' % (v, nm), 'a %s= b' % o, 'a:%s&,b:%s' % (v, v), spec=lambda a, b, f=f: [f(x, y) for x, y in zip(a, b)], requires=rq, sample=s.get('vv'), **kw))
            cs.append(Contract('%s.%s.assign.s' % (v, nm), 'a %s= s' % o, 'a:%s&,s:int' % v, spec=lambda a, s, f=f: [f(x, s) for x in a], requires=rs, sample=s.get('vs'), **kw))
            cs.append(Contract('%s.%s.assign.self' % (v, nm), 'a %s= a' % o, 'a:%s&' % v, spec=lambda a, f=f: [f(x, x) for x in a], requires=r1, sample=(lambda rng, n=n: {'a': [rng.randint(1, 15) for _ in range(n)]}) if ok else None, **kw))
            for i in range(n):
                ro = (lambda ok, i: lambda a: [ok(x, a[i]) for x in a])(ok, i) if ok else None
                cs.append(Contract('%s.%s.assign.own%d' % (v, nm, i), 'a %s= a[%d]' % (o, i), 'a:%s&' % v, spec=lambda a, f=f, i=i: [f(x, a[i]) for x in a], requires=ro, sample=(lambda rng, n=n: {'a': [rng.randint(1, 15) for _ in range(n)]}) if ok else None, **kw))
        cs.append(Contract(v + '.plus', '+a', 'a:' + v, v, theory='F', spec=lambda a: a))
        cs.append(Contract(v + '.minus', '-a', 'a:' + v, v, theory='F', spec=lambda a: [iop('sub', Z, x) for x in a], requires=lambda a: [noovf('sub', Z, x) for x in a]))
        for o, d in (('++', 1), ('--', -1)):
            k = 'inc' if d > 0 else 'dec'
            up = lambda a, d=d: [iop('add', x, ic(d, 32)) for x in a]
            rq = lambda a, d=d: [noovf('add', x, ic(d, 32)) for x in a]
            cs.append(Contract('%s.pre%s' % (v, k), '%sa' % o, 'a:%s&' % v, v, theory='F', requires=rq, spec=lambda a, up=up: {'a': up(a), 'ret': up(a)}))
            cs.append(Contract('%s.post%s' % (v, k), 'a%s' % o, 'a:%s&' % v, v, theory='F', requires=rq, spec=lambda a, up=up: {'a': up(a), 'ret': a}))
            cs.append(Contract('%s.pre%s.ref' % (v, k), '&(%sa) == &a' % o, 'a:%s&' % v, 'bool', theory='F', requires=rq, spec=lambda a, up=up: {'a': up(a), 'ret': TRUE}))
    return cs
