"""C29: the debug, release and swizzle-free configurations, and their combinations, compute bit-identical results
(relational contract over the translations of the same source in each configuration)."""
import os, re, sys, time, random
from .util import *

MERGE = False
CONFIGS = ('release', 'noswizzle', 'plain', 'release-noswizzle')
SWZ = re.compile(r'\.(?:[xyzw]{2,4}|[rgba]{2,4}|[stpq]{2,4})\b')
ASSUMPTIONS = ['an input on which the debug build fails an assertion is not valid', 'bit-identical means equal encodings, NaN payloads aside']


def contracts():
    from . import c28
    cs = c28.everything()
    for c in cs:
        if not c28.needs_precondition(c): c.requires = None
    return cs


def uses_swizzle(c):
    t = c.cxx + getattr(c, 'support', '')
    t = re.sub(r'\d\.\d*f?', '', t)
    return bool(SWZ.search(t))


def check(tier, seed):
    from zv import driver, verify as vf, fsolve
    from zv.extract import BuildError
    t0 = time.time()
    out = driver.Outcome()
    cs = contracts()
    progs, bad, broken = {}, {}, {}
    progs['debug'], bad = driver.build(cs, 'debug')
    live = [c for c in cs if c.id not in bad]
    avail = {cfg: [c for c in live if 'noswizzle' not in cfg or not uses_swizzle(c)] for cfg in CONFIGS}
    notin = {}
    for cfg in CONFIGS:
        try:
            progs[cfg], b = driver.build(avail[cfg], cfg)
            notin[cfg] = b
        except BuildError as e:
            broken[cfg] = str(e)
    ids = {cfg: set(c.id for c in avail[cfg]) for cfg in CONFIGS}

    def one(_, c):
        return relate(progs, broken, notin, ids, c, seed)
    reps = driver.parallel(progs['debug'], live, one)
    me = sys.modules[__name__]
    # a configuration in which the library or the client does not compile at all
    for cfg, err in broken.items():
        r = vf.Report(live[0])
        r.obs.append(vf.Ob('library/compiles@' + cfg, 'compiles', 'refuted', 'clang', err))
        path = driver.write_replay('C29', live[0], r, {'inputs': 'any program built with ' + ' '.join(driver.extract.CONFIGS[cfg]), 'observed': err[:800], 'expected': 'compiles'}, cfg, 90)
        out.violations.append('VIOLATION property=C29 replay=%s' % path)
    more = {}
    if tier == 'thorough':
        more['executor_conformance_other_configurations'] = driver.conform_configs(progs, live, seed, out, lambda cfg, c: c.id not in ids[cfg] or c.id in notin[cfg])
    return driver.conclude('C29', tier, seed, t0, me, cs, live, bad, progs['debug'], reps, out,
                           extra=dict(more, **{'configurations': ['debug'] + list(CONFIGS), 'contracts_compared': {k: len(v) for k, v in ids.items()}}))


def relate(progs, broken, notin, ids, c, seed):
    from zv import verify as vf, fsolve, evalt
    from zv.contract import execute
    from zv.execir import Undecided
    from zv.terms import show
    r = vf.Report(c)
    s0 = {k: tuple(v) for k, v in fsolve.stats.items()}
    ins = c.inputs()
    rng = random.Random('%s/%s' % (seed, c.id))
    try: a = execute(progs['debug'], c, ins)
    except Undecided as e:
        r.obs.append(vf.Ob(c.id + '/translation@debug', 'translation', 'unknown', None, str(e)))
        return r
    r.functions |= set(a.ex.inlined)
    r.libcalls |= set(a.ex.libcalls)
    r.inl += a.ex.stats['calls_inlined']
    hyps = list(a.reqs) + [vf.safety_goal(o) for o in a.obls if o.kind in ('assertion', 'abort')]
    hyps = [h for h in hyps if h is not TRUE]
    for cfg in CONFIGS:
        if cfg in broken or c.id not in ids[cfg]: continue
        if c.id in notin[cfg]:
            r.obs.append(vf.Ob('%s/available@%s' % (c.id, cfg), 'compiles', 'refuted', 'clang', 'not available in this configuration: ' + notin[cfg][c.id][:600]))
            continue
        try: b = execute(progs[cfg], c, ins)
        except Undecided as e:
            r.obs.append(vf.Ob('%s/translation@%s' % (c.id, cfg), 'translation', 'unknown', None, str(e)))
            continue
        r.functions |= set(b.ex.inlined)
        r.inl += b.ex.stats['calls_inlined']
        if not a.returns: continue           # the debug build rejects every input
        if not b.returns:
            r.obs.append(vf.Ob('%s/returns@%s' % (c.id, cfg), 'termination', 'refuted', 'evaluation', 'no normal return in this configuration'))
            continue
        same = 0
        left = []
        for nm in sorted(a.outs):
            for i, (x, y) in enumerate(zip(a.outs[nm], b.outs[nm])):
                if x is y: same += 1
                else: left.append(('%s[%d]' % (nm, i), x, y))
        fr = {(nm, i): raw for nm, i, raw, vv in b.frame}
        for nm, i, raw, vv in a.frame: 
            if fr.pop((nm, i), None) is not raw: left.append(('%s[%d]' % (nm, i), raw, vv))
        for (nm, i), raw in fr.items(): left.append(('%s[%d]' % (nm, i), raw, ins[nm][i]))
        if same: r.obs.append(vf.Ob('%s/same-result@%s(x%d)' % (c.id, cfg, same), 'same', 'proved', 'term-identity'))
        for nm, x, y in left[:4]:
            g = Goal('same', y, x, 'same-result:%s@%s' % (nm, cfg), hyps=())
            st, be, env = fsolve.prove(hyps, 'same', y, x, timeout=(3000, 8000))
            if env: r.cands.append(vf.env_to_vals(c, ins, env))
            r.obs.append(vf.Ob('%s/%s' % (c.id, g.name), 'same', st, be, 'the configurations compute different terms', '%s vs %s' % (show(y, 6)[:300], show(x, 6)[:300])))
    r.vacuous = None
    for k, v in fsolve.stats.items():
        q = s0.get(k, (0, 0.0))
        r.stats[k] = (v[0] - q[0], v[1] - q[1])
    return r


def search(prop, cs, reps, prog, seed, out, compile_bad):
    """used by driver.conclude instead of the single-configuration replay"""
    from zv import driver, replay, verify as vf
    from zv.extract import BuildError
    from zv.replay import params_of
    head = driver.header_text()
    res = []
    runners = {}
    t_end = time.time() + 160
    usable = [c for c, r in reps]

    def get(cfg, c, many):
        key = (cfg, None if many else c.id)
        if key not in runners:
            try: runners[key] = replay.Runner([x for x in usable if 'noswizzle' not in cfg or not uses_swizzle(x)] if many else [c], head, cfg)
            except BuildError as e: runners[key] = str(e)
        return runners[key]
    for c, r in reps:
        w = None
        cfgs = sorted(set(o.name.rsplit('@', 1)[1].split('(')[0] for o in r.failed() if '@' in o.name) - {'debug'})
        rng = random.Random('search/%s/%s' % (seed, c.id))
        ins = c.inputs()
        reqs = c.reqs(ins)
        for cfg in cfgs:
            av = [o for o in r.failed() if o.kind == 'compiles']
            if av:
                w = {'inputs': 'any program containing: ' + c.cxx, 'configuration': cfg, 'observed': 'does not compile: ' + av[0].why[:600], 'expected': 'compiles as in the debug configuration'}
                break
            A, B = get('debug', c, True), get(cfg, c, True)
            if isinstance(A, str): A = get('debug', c, False)
            if isinstance(B, str): B = get(cfg, c, False)
            if isinstance(A, str): continue
            if isinstance(B, str):
                w = {'inputs': 'any program calling: ' + c.cxx, 'configuration': cfg, 'observed': 'does not link: ' + re.sub(r'\s+', ' ', B)[:500], 'expected': 'links as in the debug configuration'}
                break
            lim = time.time() + max(2.0, min(20.0, (t_end - time.time()) / max(1, len(reps) - len(res))))

            def cands():
                for v in r.cands: yield v
                for v in replay.candidates(c, rng, 3000): yield vf.to32(c, v)
            for vals in cands():
                if time.time() > lim: break
                if not driver.reqs_ok(c, ins, reqs, replay.envof(c, ins, vals), False): continue
                s1, o1 = A.call(c, vals)
                if s1 != 'ok': continue           # not a valid input of the debug build
                s2, o2 = B.call(c, vals)
                if s2 != 'ok':
                    w = {'inputs': driver.show_vals(vals), 'bits': driver.hexvals(c, vals), 'configuration': cfg, 'observed': 'no normal return: ' + o2[:500], 'expected': driver.show_vals(o1)}
                    break
                for p in params_of(c):
                    for x, y in zip(o1[p.name], o2[p.name]):
                        if not replay.samev(x, y, {'f': 'f'}.get(p.kind, 'i')):
                            w = {'inputs': driver.show_vals(vals), 'bits': driver.hexvals(c, vals), 'configuration': cfg, 'observed': driver.show_vals(o2), 'expected': 'as the debug configuration: %s' % (driver.show_vals(o1),)}
                    if w: break
                if w: break
            if w: break
        res.append((c, r, w))
    for x in runners.values():
        if not isinstance(x, str): x.close()
    return res
