"""Discharging the obligations of one contract."""
import time, random, traceback, math, itertools
import numpy as np
import mpmath
from fractions import Fraction
from . import fsolve, rsolve, rounding
from .terms import *
from .contract import *
from .contract import KS
from .execir import *
from .evalt import *
from .replay import *

REALK = ('auto', 'autol', 'real', 'rtrue')


class Ob:
    """one proof obligation and its outcome (picklable)"""
    __slots__ = ('name', 'kind', 'status', 'backend', 'why', 'text')

    def __init__(self, name, kind, status, backend=None, why='', text=''):
        self.name, self.kind, self.status, self.backend, self.why, self.text = name, kind, status, backend, why, text


class Report:
    """outcome for one contract (picklable)"""

    def __init__(self, c):
        self.id = c.id
        self.obs = []
        self.cands = []          # concrete inputs suggested by the solvers: dict name -> list
        self.functions = set()
        self.libcalls = set()
        self.used_contracts = set()
        self.stats = {}
        self.inl = self.byc = 0
        self.time = 0.0
        self.undecided = None
        self.vacuous = None

    def failed(self): return [o for o in self.obs if o.status != 'proved']


def f32(x):
    try: return float(np.float32(float(x)))
    except OverflowError: return float('inf')


def env_to_vals(c, ins, env):
    vals = {}
    for p in c.params:
        if p.mode == 'out': continue
        vs = []
        for t in ins[p.name]:
            v = env.get(t)
            if v is None: v = False if p.kind == 'B' else 0
            if p.kind == 'f': v = f32(v) if not isinstance(v, np.float32) else float(v)
            elif p.kind == 'B': v = bool(v)
            else: v = int(v)
            vs.append(v)
        vals[p.name] = vs
    return vals


def env_hp(c, ins, vals):
    """high precision environment (samples may be exact mpf)"""
    env = {}
    for p in c.params:
        if p.mode == 'out': continue
        for t, v in zip(ins[p.name], vals[p.name]):
            if t.op != 'v': continue
            env[t] = (mpf(v) if not isinstance(v, mpf) else v) if p.kind == 'f' else bool(v) if p.kind == 'B' else int(v) & ((1 << 8 * KS[p.kind]) - 1)
    return env


def to32(c, vals):
    return {p.name: [f32(v) if p.kind == 'f' else v for v in vals[p.name]] for p in c.params if p.mode != 'out'}


def differs_R(g, env):
    if g.rhs is None: return not holds(g.lhs, env, 1e-15, {})
    a, b = evalR([g.lhs, g.rhs], env)
    return abs(a - b) > 2e-5 * (1 + abs(a) + abs(b))


def numeric_refute_R(c, vc, ins, g, rng, n=4):
    """does the code term differ from the specification in exact arithmetic at a sample point?"""
    if vc.ex.assumed: return None
    cs = consts_of([g.lhs] + ([g.rhs] if g.rhs is not None else []))
    for vals in candidates(c, rng, n, cs, finite=True):
        env = env_hp(c, ins, vals)
        try:
            if not all(holds(r, env, 1e-20 if c.sample else 1e-9, {}) for r in vc.reqs): continue
            if differs_R(g, env):
                # not an effect of the precision the terms are evaluated with (cancellation between numbers of very different size)
                with mpmath.workdps(700):
                    if all(holds(r, env, 1e-20 if c.sample else 1e-9, {}) for r in vc.reqs) and differs_R(g, env): return vals
        except (EvalError, ZeroDivisionError, OverflowError, ValueError, TypeError): continue
    return None


def numeric_refute_F(c, vc, ins, g, rng, n=60):
    if vc.ex.assumed: return None
    cs = consts_of([t for t in (g.lhs, g.rhs) if t is not None])
    for vals in itertools.chain(c.opts.get('cands', ()), candidates(c, rng, n, cs)):
        env = envof(c, ins, to32(c, vals))
        for t in (g.lhs, g.rhs):
            if t is None: continue
            for v in free_vars(t):
                if v not in env: return None
        try:
            if not all(evalF([r], env)[0] for r in vc.reqs): continue
            if g.rhs is None:
                if not evalF([g.lhs], env)[0]: return vals
            else:
                a, b = evalF([g.lhs, g.rhs], env)
                if not samev(a, b, g.lhs.sort, g.kind in ('equal', 'autol')): return vals
        except (EvalError, TypeError): continue
    return None


def discharge(c, vc, ins, g, rep, rng, rp, quickfail=False):
    """returns Ob"""
    from . import interval
    interval.SECONDS[0] = float(c.opts.get('ivtime', 5.0))
    kind = g.kind
    hyps = list(vc.reqs) + list(g.hyps)
    name = '%s/%s' % (c.id, g.name or 'post')
    real_allowed = kind in REALK
    if kind in ('same', 'equal', 'auto', 'autol'):
        fk = {'auto': 'same', 'autol': 'equal'}.get(kind, kind)
        if g.lhs is g.rhs:
            st, be, env = fsolve.prove([], fk, g.lhs, g.rhs)
            return Ob(name, kind, 'proved', be)
        isf = g.lhs.sort in ('f', 'd')
        if real_allowed and isf and getattr(rep, 'abstract', False): return discharge_real(c, vc, ins, g, rep, rng, rp, name, hyps)
        cheap = (1500, 0) if real_allowed and isf else (c.opts.get('uf', 4000), c.opts.get('fp', 20000))
        modes = ('uf',) if cheap[1] == 0 else ('uf', 'fp')
        if modes == ('uf', 'fp'):
            st, be, env = fsolve.prove(hyps, fk, g.lhs, g.rhs, modes=('uf',), timeout=(cheap[0],))
            if st == 'proved': return Ob(name, kind, 'proved', be)
            if st == 'refuted':
                rep.cands.append(env_to_vals(c, ins, env))
                return Ob(name, kind, 'refuted', be, 'counterexample to the verification condition', g.text()[:400])
            bad = numeric_refute_F(c, vc, ins, g, rng)
            if bad is not None:
                rep.cands.append(to32(c, bad))
                return Ob(name, kind, 'refuted', 'evaluation', 'evaluation of the verification condition', g.text()[:400])
            if env: rep.cands.append(env_to_vals(c, ins, env))
            st, be, env = fsolve.prove(hyps, fk, g.lhs, g.rhs, modes=('fp',), timeout=(cheap[1] if not quickfail else 4000,))
            if st == 'proved': return Ob(name, kind, 'proved', be)
            if env: rep.cands.append(env_to_vals(c, ins, env))
            return Ob(name, kind, st, be, 'solver gave up' if st == 'unknown' else 'counterexample', g.text()[:400])
        st, be, env = fsolve.prove(hyps, fk, g.lhs, g.rhs, modes=modes, timeout=(cheap[0],))
        if st == 'proved': return Ob(name, kind, 'proved', be)
        kind = 'real'
    if kind == 'true':
        st, be, env = fsolve.prove(hyps, 'true', g.lhs, None, modes=('uf',), timeout=(4000,))
        if st == 'proved': return Ob(name, kind, 'proved', be)
        if st == 'unknown':
            bad = numeric_refute_F(c, vc, ins, g, rng)
            if bad is not None:
                rep.cands.append(to32(c, bad))
                return Ob(name, kind, 'refuted', 'evaluation', 'evaluation of the verification condition', g.text()[:400])
            st, be, env2 = fsolve.prove(hyps, 'true', g.lhs, None, modes=('fp',), timeout=(c.opts.get('fp', 20000) if not quickfail else 4000,))
            env = env2 or env
            if st == 'proved': return Ob(name, kind, 'proved', be)
        if env: rep.cands.append(env_to_vals(c, ins, env))
        return Ob(name, kind, st, be, 'counterexample' if st == 'refuted' else 'solver gave up', g.text()[:400])
    return discharge_real(c, vc, ins, g, rep, rng, rp, name, hyps)


def discharge_real(c, vc, ins, g, rep, rng, rp, name, hyps):
    kind = 'rtrue' if g.rhs is None else 'real'
    if c.theory != 'lemma':
        bad = numeric_refute_R(c, vc, ins, g, rng)
        if bad is not None:
            rep.cands.append(to32(c, bad))
            return Ob(name, kind, 'refuted', 'evaluation', 'the exact values differ at a sample point', g.text()[:400])
    pr = rp
    if g.hyps: pr = rsolve.RProver(hyps, timeout=rp.timeout, tol=rp.tol, ztime=rp.ztime, defined=rp.defined, noelim=rp.noelim)
    r = None
    if vc.ex.assumed:
        # results of relational callee contracts: first the assumed equations as they stand
        p2 = rsolve.RProver(hyps, timeout=min(10, rp.timeout), tol=rp.tol, ztime=500, defined=rp.defined, noelim=True)
        r = p2.prove('rtrue' if g.rhs is None else 'real', g.lhs, g.rhs)
    if r is None or r.status != 'proved': r = pr.prove('rtrue' if g.rhs is None else 'real', g.lhs, g.rhs)
    if r.status == 'proved': return Ob(name, kind, 'proved', 'real-arithmetic')
    for e in r.env or []: rep.cands.append(env_to_vals(c, ins, e))
    bad = numeric_refute_R(c, vc, ins, g, rng, 150)
    if bad is not None:
        rep.cands.append(to32(c, bad))
        return Ob(name, kind, 'refuted', 'evaluation', 'the exact values differ at a sample point', g.text()[:400])
    return Ob(name, kind, 'unknown', None, r.note, g.text()[:400])


def safety_goal(o): return IMP(o.pc, o.cond)


def verify(prog, c, seed=1, summaries=None, budget=None, maxfail=3, safety_only=False):
    t0 = time.time()
    rep = Report(c)
    rng = random.Random('%s/%s' % (seed, c.id))
    ins = c.inputs()
    s0 = {k: tuple(v) for k, v in fsolve.stats.items()}
    try:
        vc = execute(prog, c, ins, summaries)
    except Undecided as e:
        rep.undecided = str(e)
        rep.obs.append(Ob(c.id + '/translation', 'translation', 'unknown', None, str(e)))
        rep.time = time.time() - t0
        return rep
    except RecursionError:
        rep.undecided = 'recursion depth'
        rep.obs.append(Ob(c.id + '/translation', 'translation', 'unknown', None, 'recursion depth'))
        return rep
    rep.functions = set(vc.ex.inlined)
    rep.libcalls = set(vc.ex.libcalls)
    rep.used_contracts = set(vc.ex.used_contracts)
    rep.inl, rep.byc = vc.ex.stats['calls_inlined'], vc.ex.stats['calls_by_contract']
    # --- cut: facts that follow from the precondition, proved first, assumed in what follows
    if c.derive:
        rp0 = rsolve.RProver(list(vc.reqs0), timeout=c.opts.get('rtime', 40), tol=0, ztime=c.opts.get('ztime', 5000), defined=False, until=budget)
        for k, t in enumerate(c.derive(*c.bind(ins))):
            if t.op == 'feq': r = rp0.prove('real', t.args[0], t.args[1])
            else: r = rp0.prove('rtrue', t)
            rep.obs.append(Ob('%s/derived[%d]' % (c.id, k), 'derived', 'proved' if r.status == 'proved' else 'unknown', 'real-arithmetic' if r.status == 'proved' else None, r.note, show(t, 6)[:300]))
            if r.status == 'proved':
                vc.reqs.append(t)
                vc.reqs0.append(t)
    rp = rsolve.RProver(vc.reqs, timeout=c.opts.get('rtime', 40), tol=c.opts.get('coef_tol', 1e-6), ztime=c.opts.get('ztime', 5000), defined=c.opts.get('defined', True), noelim=c.opts.get('noelim', False), until=budget)
    real = c.theory in ('FR', 'FlR', 'R')
    abstract = getattr(summaries, 'real_used', False)      # results of some calls are known in real arithmetic only
    rep.abstract = abstract
    # --- safety: every memory access, assertion, division ... met on the way
    triv = 0
    for o in vc.obls:
        t = safety_goal(o)
        if t is TRUE:
            triv += 1
            continue
        if abstract or o.kind == 'precondition':
            st, be, env = 'unknown', None, None
            if o.kind != 'precondition':
                rep.obs.append(Ob('%s/safety:%s' % (c.id, o.kind), o.kind, st, None, 'depends on a call abstracted in real arithmetic', show(t, 6)[:300]))
                return rep
            hy = vc.reqs0 + vc.assumed[:o.nassumed]      # not what this very call promises
            if not abstract: st, be, env = fsolve.prove(hy, 'true', t, None, timeout=(3000, c.opts.get('fpsafe', 10000)))
            if st != 'proved' and real:
                r = rsolve.RProver(hy, timeout=rp.timeout, tol=0, ztime=rp.ztime, until=budget).prove('rtrue', t)
                if r.status == 'proved': st, be = 'proved', 'real-arithmetic'
            if st != 'proved':
                rep.obs.append(Ob('%s/safety:%s' % (c.id, o.kind), o.kind, st, be, o.where, show(t, 6)[:300]))
                return rep
            rep.obs.append(Ob('%s/safety:%s' % (c.id, o.kind), o.kind, st, be, o.where, show(t, 6)[:300]))
            continue
        st, be, env = fsolve.prove(vc.reqs, 'true', t, None, timeout=(3000, c.opts.get('fpsafe', 10000)))
        if st != 'proved' and real and c.opts.get('real_safety'):
            r = rp.prove('rtrue', t)
            if r.status == 'proved': st, be = 'proved', 'real-arithmetic'
        if st != 'proved' and env: rep.cands.append(env_to_vals(c, ins, env))
        rep.obs.append(Ob('%s/safety:%s' % (c.id, o.kind), o.kind, st, be, o.where, show(t, 6)[:300]))
    if triv: rep.obs.append(Ob('%s/safety(x%d)' % (c.id, triv), 'safety', 'proved', 'evaluation of addresses'))
    rep.triv = triv
    if not vc.returns:
        rep.obs.append(Ob(c.id + '/returns', 'termination', 'unknown', None, 'no normal return'))
        rep.time = time.time() - t0
        return rep
    if abstract and (vc.frame or vc.wellformed or any(v.args[0].startswith('undef!') for vs in vc.outs.values() for t in vs for v in free_vars(t))):
        rep.obs.append(Ob(c.id + '/abstraction', 'translation', 'unknown', None, 'frame or initialisation depends on a call abstracted in real arithmetic'))
        return rep
    for nm, i, a, b in vc.frame:
        st, be, env = fsolve.prove(vc.reqs, 'same', a, b)
        if env: rep.cands.append(env_to_vals(c, ins, env))
        rep.obs.append(Ob('%s/frame:%s[%d]' % (c.id, nm, i), 'frame', st, be, 'argument %s[%d] is modified' % (nm, i), show(a, 6)[:300]))
    for w in vc.wellformed:
        st, be, env = fsolve.prove(vc.reqs, 'true', w, None)
        if env: rep.cands.append(env_to_vals(c, ins, env))
        rep.obs.append(Ob('%s/bool-value' % c.id, 'wellformed', st, be, 'a bool holds neither 0 nor 1', show(w, 6)[:300]))
    # no output depends on uninitialised memory: replacing every undefined read by another arbitrary value changes nothing
    if c.opts.get('no_undef', True):
        for nm, vs in vc.outs.items():
            for i, t in enumerate(vs):
                m = {v: var('fresh' + v.args[0], v.sort) for v in free_vars(t) if v.args[0].startswith('undef!')}
                if not m: continue
                st, be, env = fsolve.prove(vc.reqs, 'same', t, subst([t], m)[0])
                if env: rep.cands.append(env_to_vals(c, ins, env))
                rep.obs.append(Ob('%s/initialised:%s[%d]' % (c.id, nm, i), 'initialised', st, be, 'the result depends on uninitialised memory', show(t, 6)[:300]))
                if st != 'proved': break
            if rep.obs and rep.obs[-1].status != 'proved' and rep.obs[-1].kind == 'initialised': break
    if not safety_only:
        fails = 0
        goals = c.goals(ins, vc.outs)
        if not goals: raise RuntimeError('contract without postcondition: ' + c.id)
        for g in goals:
            if fails >= maxfail:
                rep.obs.append(Ob('%s/%s' % (c.id, g.name or 'post'), g.kind, 'skipped', None, 'not attempted after %d failures of this contract' % fails))
                continue
            if budget and time.time() > budget:
                rep.obs.append(Ob('%s/%s' % (c.id, g.name or 'post'), g.kind, 'unknown', None, 'time budget of the check exhausted', g.text()[:300]))
                continue
            o = discharge(c, vc, ins, g, rep, rng, rp, fails > 0)
            if o.status != 'proved': fails += 1
            rep.obs.append(o)
        # --- rounding: how far the machine's result may be from the value proved above
        if getattr(c, 'rounding', None):
            try: rs = rounding.obligations(prog, c)
            except (Undecided, RecursionError) as e: rs = []
            for box, tol, m in rs:
                t1 = time.time()
                ok = rounding.kept(tol, m)
                if ok: fsolve.note('rounding', time.time() - t1)
                rep.obs.append(Ob('%s/rounding:%s' % (c.id, box), 'rounding', 'proved' if ok else 'unknown', 'rounding' if ok else None, '' if ok else 'error bound %s exceeds the promised (absolute, relative) %s' % (m, tuple(tol)), 'inputs in box %s' % box))
    # --- vacuity: some concrete input satisfies the precondition
    if c.requires:
        rep.vacuous = True
        for vals in candidates(c, rng, 200, finite=True):
            env = env_hp(c, ins, vals)
            if c.sample is None: env = envof(c, ins, to32(c, vals))
            try:
                if all((holds(r, env, 1e-12, {}) if c.sample is not None else bool(evalF([r], env)[0])) for r in c.reqs(ins)):
                    rep.vacuous = False
                    break
            except (EvalError, ZeroDivisionError): continue
        if rep.vacuous:
            e = fsolve.sat(c.reqs(ins))
            if e: rep.vacuous = False
    for k, v in fsolve.stats.items():
        a = s0.get(k, (0, 0.0))
        rep.stats[k] = (v[0] - a[0], v[1] - a[1])
    rep.time = time.time() - t0
    return rep


def control(prog, c, seed=1):
    """negative control: the negation / perturbation of a proved postcondition must not be provable. True = ok"""
    ins = c.inputs()
    vc = execute(prog, c, ins)
    gs = c.goals(ins, vc.outs)
    rng = random.Random(seed)
    g = gs[rng.randrange(len(gs))]
    if g.rhs is None: bad = Goal(g.kind, NOT(g.lhs), None, 'control')
    else:
        r = g.rhs
        if r.sort in ('f', 'd'): r = fadd(fc(1) if r.sort == 'f' else dc(1), r)
        elif r.sort == 'b': r = NOT(r)
        else: r = iop('add', r, ic(1, r.sort))
        bad = Goal(g.kind, g.lhs, r, 'control')
    rep = Report(c)
    rp = rsolve.RProver(vc.reqs, timeout=10, tol=1e-6, ztime=1500)
    o = discharge(c, vc, ins, bad, rep, rng, rp, True)
    return o.status != 'proved'
