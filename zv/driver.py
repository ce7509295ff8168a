"""One check: all contracts of one property, from /repo's current source to a verdict and an evidence file."""
import os, sys, re, json, time, random, importlib, multiprocessing, traceback, math, struct
sys.setrecursionlimit(200000)
from . import fsolve, verify as vf, replay, interval, rounding
from .extract import BuildError
from .terms import *
from .contract import *
from .execir import Undecided
import mpmath
from .evalt import EvalError, evalR
from .replay import *
from . import extract

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
EVID = os.path.join(ROOT, 'evidence')
TRUSTED = [
    'g++ 13 preprocessor and clang 18 front end: translation of the C++ source to LLVM IR at -O0 (the IR is what is verified); compared with the g++-compiled code at sample points only',
    'this framework: IR semantics (zv/execir.py), term simplifier (zv/terms.py), real-arithmetic normaliser (zv/poly.py, zv/rsolve.py), encoder (zv/fsolve.py)',
    'z3 (python bindings, wheel version recorded in solver_versions)',
    'glibc libm functions are uninterpreted in F obligations and the exact mathematical functions in R obligations',
    interval.TRUST,
]
ASSUME = [
    'memory model: objects do not overlap except where a contract passes the same object twice; pointers passed in are valid for their type',
    'default rounding mode (round to nearest), no floating point exceptions unmasked; NaN payloads are not distinguished',
    'obligations of kind R read machine arithmetic as real arithmetic: ("up to float rounding" in the statement); what rounding, overflow and underflow add is decided by the rounding obligations, on the boxes of inputs listed in contracts/rounding.json only',
    'x86-64 System V target of the installed clang; g++ is assumed to implement the same C++ semantics',
]
PRELUDE = '''
#include <stddef.h>
#include <stdint.h>
#include <functional>
'''


def header_text():
    return PRELUDE + ''.join('#include <%s>\n' % h for h in extract.headers())


def load(prop):
    m = importlib.import_module('contracts.' + prop.lower())
    cs = m.contracts()
    ids = set()
    for c in cs:
        if c.fn in ids: raise RuntimeError('duplicate contract ' + c.id)
        ids.add(c.fn)
        c.rounding = rounding.table().get(prop, {}).get(c.id)
    return m, cs


def build(cs, config='debug', lib=()):
    """compile; returns (prog, {contract id: compile error})"""
    head = header_text()
    bad = {}
    cur = list(cs)
    libtu = {}
    for i in range(8 if lib else 0): libtu['l%d_%s' % (i, config)] = head + '\n'.join(c.harness() for c in list(lib)[i::8])
    for attempt in range(3):
        n = max(1, min(16, len(cur) // 40))
        tus = dict(libtu)
        for i in range(n):
            part = cur[i::n]
            tus['h%d_%s' % (i, config)] = head + '\n'.join(getattr(c, 'support', '') + c.harness() for c in part)
        try:
            return extract.compile_ir(config, tus), bad
        except BuildError as e:
            if libtu and re.search(r'clang failed on l\d', str(e)):
                libtu = {}         # a helper no longer compiles: judge everything with bodies inlined
                continue
            if bad or not re.search(r'clang failed on h\d', str(e)): raise
            from concurrent.futures import ThreadPoolExecutor
            def one(c):
                f = os.path.join(extract.scratch(), 'x_' + c.fn + '.cpp')
                with open(f, 'w') as fh: fh.write(head + c.harness())
                rc, so, se = extract.run(['clang++', '-std=c++14', '-fsyntax-only', '-w', '-I' + extract.REPO + '/include'] + extract.CONFIGS[config] + [f])
                return c, rc, se
            with ThreadPoolExecutor(8) as ex:
                for c, rc, se in ex.map(one, cur):
                    if rc: bad[c.id] = se[:1500]
            cur = [c for c in cur if c.id not in bad]
            if not bad: raise
    raise BuildError('harness')


_job = {}


def _work(i):
    c = _job['cs'][i]
    try:
        return i, _job['fn'](_job['prog'], c)
    except Exception:
        r = vf.Report(c)
        r.error = traceback.format_exc()
        return i, r


def parallel(prog, cs, fn, nproc=8):
    """fork workers over the contracts"""
    import gc
    _job.update(cs=cs, prog=prog, fn=fn)
    out = [None] * len(cs)
    order = sorted(range(len(cs)), key=lambda i: -cs[i].opts.get('cost', 1))
    size = max(1, min(8, len(cs) // 64))
    nc = -(-len(order) // size)
    order = [order[i * nc + j] for j in range(nc) for i in range(size) if i * nc + j < len(order)]      # spread the expensive ones over the chunks
    if len(cs) <= 2 or nproc == 1:
        for i in order: out[i] = _work(i)[1]
        return out
    gc.collect()
    gc.freeze()
    ctx = multiprocessing.get_context('fork')
    with ctx.Pool(nproc) as pool:
        for i, r in pool.imap_unordered(_work, order, chunksize=size): out[i] = r
    return out


def base_id(c): return c.id


def find_failing_input(c, rep, prog, seed, want_real, limit=25.0, runner=None, san=None):
    """search for and replay a concrete failing input on the real (g++) code. returns dict or None"""
    rng = random.Random('search/%s/%s' % (seed, c.id))
    ins = c.inputs()
    outs = outvars(c)
    goals = c.goals(ins, outs)
    reqs = c.reqs(ins)
    real = c.theory in ('FR', 'FlR', 'R')
    vc = None
    cs = ((), ())
    try:
        vc = execute(prog, c, ins)
        allt = [t for vs in vc.outs.values() for t in vs] if vc.returns else []
        cs = consts_of(allt + [t for g in (c.goals(ins, vc.outs) if vc.returns else ()) for t in g.terms()] + [o.pc for o in vc.obls])
        sym = c.goals(ins, vc.outs) if vc.returns else None
    except Undecided:
        sym = None
    end = time.time() + limit
    eps = c.tol

    def cands():
        for v in rep.cands: yield v
        for v in c.opts.get('cands', ()): yield dict(v)
        for k, v in enumerate(candidates(c, rng, 4000, cs)):
            yield to32(c, v)
            if c.sample is not None and k % 3 == 2: yield structured(c, rng)

    from .verify import to32
    tried = 0
    for vals in cands():
        if time.time() > end: break
        tried += 1
        env = envof(c, ins, vals)
        if not reqs_ok(c, ins, reqs, env, real and c.sample is not None or real): continue
        st, res = runner.call(c, vals)
        if st == 'crash':
            return {'inputs': show_vals(vals), 'bits': hexvals(c, vals), 'observed': 'no normal return: ' + res[:600], 'expected': 'returns normally', 'tried': tried}
        for p in c.params:
            if p.mode == 'in':
                a, b = pack(p, vals[p.name]), pack(p, res[p.name]) if not any(isinstance(x, int) and not isinstance(x, bool) and p.kind == 'B' for x in res[p.name]) else b''
                if a != b and not any(v != v for v in vals[p.name]):
                    return {'inputs': show_vals(vals), 'bits': hexvals(c, vals), 'observed': 'argument %s changed to %s' % (p.name, show_vals(res[p.name])), 'expected': 'argument unchanged', 'tried': tried}
        e2 = dict(env)
        badbool = None
        for p in params_of(c):
            if p.mode == 'in' and p is not c.ret: continue
            for t, v in zip(outs[p.name], res[p.name]):
                if p.kind == 'B' and not isinstance(v, bool): badbool = (p.name, v)
                e2[t] = v
        if badbool:
            return {'inputs': show_vals(vals), 'bits': hexvals(c, vals), 'observed': 'bool %s has representation %d' % badbool, 'expected': '0 or 1', 'tried': tried}
        for k, g in enumerate(goals):
            try:
                if g.hyps and not all(holds(h, e2, 0, {}) for h in g.hyps): continue
                ok, got, exp = check_goal(g, e2, eps)
                rw = c.opts.get('relwit')
                if ok and rw and g.kind in ('auto', 'autol') and g.lhs.sort == 'f':
                    # a component that is wrong in its leading digits, however small it is
                    a, b = (float(x) for x in evalF([g.lhs, g.rhs], e2))
                    if math.isfinite(a) and math.isfinite(b) and abs(a - b) > rw * abs(b) + 1e-30:
                        return {'inputs': show_vals(vals), 'bits': hexvals(c, vals), 'goal': g.name, 'observed': repr(a), 'expected': repr(b), 'outputs': show_vals(res), 'tried': tried}
            except (EvalError, ZeroDivisionError, OverflowError, ValueError, TypeError): continue
            if ok is None or ok: continue
            if g.kind in ('real', 'rtrue', 'auto', 'autol') and sym is not None:
                # the real values must differ too, otherwise this is rounding
                try:
                    ehp = {t: (mpf(float(v)) if t.sort in ('f', 'd') else v) for t, v in env.items()}
                    if sym[k].rhs is None:
                        if holds(sym[k].lhs, ehp, eps / 10, {}): continue
                    elif all(math.isfinite(float(v)) for t, v in env.items() if t.sort in ('f', 'd')):
                        with mpmath.workdps(300): a, b = evalR([sym[k].lhs, sym[k].rhs], ehp)
                        if abs(a - b) <= eps / 10 * (1 + abs(b)): continue
                    else: continue
                except (EvalError, ZeroDivisionError) as e:
                    if got != 'not finite' or str(e) != 'div0' or sym[k].rhs is None: continue
                    try: evalR([sym[k].rhs], ehp)
                    except (EvalError, ZeroDivisionError, OverflowError, ValueError, TypeError): continue
                    # the specification has a value here and the code divides by zero
                except (OverflowError, ValueError, TypeError): continue
            if g.kind in ('real', 'rtrue', 'auto', 'autol') and sym is None and not clearly_wrong(c, g, e2, env, vals): continue
            return {'inputs': show_vals(vals), 'bits': hexvals(c, vals), 'goal': g.name, 'observed': show_vals(got) if got is not None else show_vals({kk: v for kk, v in res.items()}), 'expected': show_vals(exp) if exp is not True else g.text()[:400],
                    'outputs': show_vals(res), 'tried': tried}
        if san is not None and tried < 200:
            st, res = san.call(c, vals)
            if st == 'crash':
                return {'inputs': show_vals(vals), 'bits': hexvals(c, vals), 'observed': 'sanitizer/abort: ' + res[:900], 'expected': 'memory-safe, defined execution', 'tried': tried}
    return None


def clearly_wrong(c, g, e2, env, vals, tol=1e-2):
    """without a term for the code, is the difference at this input more than rounding in a sensible computation could explain?
    moderate inputs only; the difference must stay when the specification's inputs are perturbed"""
    if any(v != 0 and not 0.05 <= abs(v) <= 8 for t, v in env.items() if t.sort in ('f', 'd')): return False
    rng = random.Random(repr(sorted(vals.items())))
    try:
        if g.rhs is None: return not holds(g.lhs, {t: (mpf(float(v)) if t.sort in ('f', 'd') else v) for t, v in e2.items()}, tol, {})
        for k in range(8):
            e = {t: (mpf(float(v)) * (1 + (mpf(rng.uniform(-1e-4, 1e-4)) if k and t in env else 0)) if t.sort in ('f', 'd') else v) for t, v in e2.items()}
            if any(not math.isfinite(v) for t, v in e.items() if t.sort in ('f', 'd')): return True
            a, b = evalR([g.lhs, g.rhs], e)
            if abs(a - b) <= tol * (1 + abs(b)): return False
    except (EvalError, ZeroDivisionError, OverflowError, ValueError, TypeError): return False
    return True


def inputs_for_search(c, seed, n):
    rng = random.Random('history/%s/%s' % (seed, c.id))
    from .verify import to32
    ins = c.inputs()
    reqs = c.reqs(ins)
    real = c.theory in ('FR', 'FlR', 'R')
    out = []
    for k, v in enumerate(candidates(c, rng, 50 * n, finite=True)):
        v = structured(c, rng) if c.sample is not None and k % 3 == 2 else to32(c, v)
        if reqs_ok(c, ins, reqs, envof(c, ins, v), real): out.append(v)
        if len(out) >= n: break
    return out


def sameouts(c, a, b):
    for p in params_of(c):
        if p.mode == 'in' and p is not c.ret: continue
        x, y = np.array(a[p.name]), np.array(b[p.name])
        if x.tobytes() != y.tobytes() and not all(samev(u, w, 'f' if p.kind == 'f' else 'i') for u, w in zip(a[p.name], b[p.name])): return False
    return True


def find_uninitialised(c, cfg, head, seed, limit=15.0):
    """the same call on stacks filled with zeros and with a pattern: results that differ depend on uninitialised memory"""
    try: ra, rb = Runner([c], head, cfg, fill='zero'), Runner([c], head, cfg, fill='pattern')
    except BuildError: return None
    end = time.time() + limit
    try:
        for v in inputs_for_search(c, seed, 60):
            if time.time() > end: break
            (sa, xa), (sb, xb) = ra.call(c, v), rb.call(c, v)
            if sa == 'ok' and sb == 'ok' and not sameouts(c, xa, xb):
                return {'inputs': show_vals(v), 'bits': hexvals(c, v), 'observed': 'the result depends on uninitialised memory: %s with zeroed locals, %s with patterned locals (g++ -ftrivial-auto-var-init)' % (show_vals(xa), show_vals(xb)), 'expected': 'a result that depends on the arguments only'}
    finally:
        ra.close(); rb.close()
    return None


def find_history(c, runner, seed, limit=15.0):
    """call(w), call(v), call(w), call(u), call(v) in one process, u near v or sharing arguments with it: both results of call(v) must agree"""
    rng = random.Random('pairs/%s/%s' % (seed, c.id))
    pool = inputs_for_search(c, seed, 40)
    end = time.time() + limit
    if not pool: return None
    ps = [p for p in c.params if p.mode != 'out']
    ins = c.inputs()
    reqs = c.reqs(ins)
    for k in range(3000):
        if time.time() > end: return None
        v, u, w = rng.choice(pool), dict(rng.choice(pool)), rng.choice(pool)
        if k % 3:
            for p in ps:
                m = rng.random()
                if m < .4: u[p.name] = v[p.name]
                elif p.kind == 'f' and m < .8: u[p.name] = [float(np.float32(x + rng.choice((0, 1e-6, 1e-4, -1e-4, 1e-2)) * (1 if rng.random() < .5 else abs(x)))) for x in v[p.name]]
            if not reqs_ok(c, ins, reqs, envof(c, ins, u), c.theory in ('FR', 'FlR', 'R')): continue
        rs = [runner.call(c, x) for x in (w, v, w, u, v)]
        if all(st == 'ok' for st, _ in rs) and not sameouts(c, rs[1][1], rs[4][1]):
            return {'inputs': show_vals(v), 'bits': hexvals(c, v), 'history': ['call on %s' % show_vals(w), 'call on the inputs -> %s' % show_vals(rs[1][1]), 'call on %s' % show_vals(w), 'call on %s' % show_vals(u), 'call on the inputs'],
                    'observed': show_vals(rs[4][1]), 'expected': 'the same result as the earlier call: %s' % show_vals(rs[1][1])}
    return None


def hexvals(c, vals):
    return {p.name: pack(p, vals[p.name]).hex() for p in c.params if p.mode != 'out'}


def known_findings():
    f = os.path.join(ROOT, 'known_findings.json')
    if not os.path.exists(f): return []
    return json.load(open(f))['entries']


class Outcome:
    def __init__(self):
        self.violations = []
        self.known = []
        self.errors = []


def replay_failures(prop, cs, reps, prog, seed, out, compile_bad, config='debug'):
    """reps: list of (contract, report) that failed"""
    head = header_text()
    runner = san = None
    config = next((r.config for c, r in reps if hasattr(r, 'config')), config)
    usable = [c for c, r in reps]
    linkerr = None
    t_end = time.time() + 160
    if usable:
        try:
            runner = Runner(usable, head, config)
        except BuildError as e:
            linkerr = str(e)
        if runner and any(o.kind in ('mem-bounds', 'initialised', 'ub-overflow', 'ub-shift', 'ub-division', 'ub-conversion', 'assertion', 'abort', 'frame', 'translation') for c, r in reps for o in r.failed()):
            try: san = Runner(usable, head, config, san=True)
            except BuildError: san = None
    res = []
    for c, r in reps:
        w = None
        if linkerr and ('undefined reference' in linkerr):
            # does this contract alone link?
            try:
                rn = Runner([c], head, config)
            except BuildError as e:
                w = {'inputs': 'any program calling: ' + c.cxx, 'observed': 'does not link: ' + re.sub(r'\s+', ' ', str(e))[:400], 'expected': 'declared operation is provided'}
                rn = None
        else: rn = runner
        if w is None and rn is not None:
            lim = max(2.0, min(20.0, (t_end - time.time()) / max(1, len(reps) - len(res))))
            try:
                if {o.kind for o in r.failed()} != {'rounding'}: w = find_failing_input(c, r, prog, seed, True, lim, rn, san)
                if w is None and any(o.kind == 'rounding' for o in r.failed()): w = rounding.witness(c, random.Random('rounding/%s/%s' % (seed, c.id)), rn)
            except Exception: w = None; out.errors.append('search: ' + traceback.format_exc()[-800:])
        if w is None and rn is not None and time.time() < t_end:
            try:
                if any(o.kind == 'initialised' for o in r.failed()): w = find_uninitialised(c, config, head, seed)
                if w is None and any(o.kind in ('translation', 'same', 'equal', 'auto', 'autol', 'true', 'frame') for o in r.failed()): w = find_history(c, rn, seed)
            except Exception: out.errors.append('search: ' + traceback.format_exc()[-800:])
        res.append((c, r, w))
    for x in (runner, san):
        if x: x.close()
    return res


def write_replay(prop, c, r, w, config, n):
    os.makedirs(EVID, exist_ok=True)
    path = os.path.join(EVID, 'replay-%s-%d.json' % (prop, n))
    d = {'property': prop, 'contract': c.id, 'client_code': c.cxx, 'harness': c.harness(), 'config': config,
         'params': ['%s:%s' % (p.name, p.type) for p in c.params],
         'failed_obligations': [{'name': o.name, 'kind': o.kind, 'status': o.status, 'backend': o.backend, 'verifier_output': o.why, 'obligation': o.text} for o in r.failed()],
         'witness': w if w else 'no-failing-input-found',
         'how_to_replay': 'python3-vt check.py %s --replay %s' % (prop, path)}
    with open(path, 'w') as f: json.dump(d, f, indent=1, default=str)
    return path


def do_replay(path):
    d = json.load(open(path))
    m, cs = load(d['property']) if os.path.exists(os.path.join(ROOT, 'contracts', d['property'].lower() + '.py')) else (None, [])
    c = next(x for x in all_contracts() if x.id == d['contract'])
    w = d['witness']
    if not isinstance(w, dict) or 'bits' not in w:
        print(json.dumps(d, indent=1))
        return
    rn = Runner([c], header_text(), d['config'])
    vals = {p.name: replay.unpack(p, bytes.fromhex(w['bits'][p.name])) for p in c.params if p.mode != 'out'}
    print('client code:', c.cxx)
    print('inputs     :', show_vals(vals))
    st, res = rn.call(c, vals)
    print('real code  :', st, show_vals(res))
    print('expected   :', w.get('expected'), 'observed when found:', w.get('observed'))
    rn.close()


def all_contracts():
    out = []
    for i in range(1, 31):
        f = os.path.join(ROOT, 'contracts', 'c%02d.py' % i)
        if os.path.exists(f):
            m = importlib.import_module('contracts.c%02d' % i)
            if getattr(m, 'MERGE', True): out += m.contracts()
    return out


def finish(prop, tier, seed, t0, ev, out, level='proof'):
    os.makedirs(EVID, exist_ok=True)
    d = {'property': prop, 'tier': tier, 'seed': seed, 'level': level, 'coverage': ev, 'assumptions': ASSUME + ev.pop('assumptions', []), 'wall_s': round(time.time() - t0, 2), 'violations': len(out.violations)}
    with open(os.path.join(EVID, prop + '.json'), 'w') as f: json.dump(d, f, indent=1, default=str)
    for k in out.known: print('KNOWN-FINDING: property=%s %s' % (prop, k))
    for v in out.violations: print(v)
    if out.errors and not out.violations:
        for e in out.errors[:10]: print('CHECK-ERROR:', e, file=sys.stderr)
        return 2
    return 1 if out.violations else 0


def check(prop, tier='quick', seed=1):
    t0 = time.time()
    out = Outcome()
    m, cs = load(prop)
    import zv.modular as modular
    lib = modular.lib_contracts()
    prog, bad = build(cs, lib=lib)
    live = [c for c in cs if c.id not in bad]
    budget = t0 + (420 if tier == 'quick' else 480)
    summ = None
    mod = modular.Modular(prog, seed, budget, lib)
    mod.prove_reachable(live)
    reps = parallel(prog, live, lambda p, c: mod.verify(c))
    extra = None
    if tier == 'thorough': extra = {'configurations': other_configs(m, seed, budget, live, reps, lib)}
    return conclude(prop, tier, seed, t0, m, cs, live, bad, prog, reps, out, extra)


def other_configs(m, seed, budget, live, reps, lib):
    """thorough tier: the same contracts on the release and swizzle-free translations (contracts whose client code needs
    swizzles, or does not compile there, are C29's business)"""
    import zv.modular as modular
    done = {'debug': len(live)}
    for cfg in ('release', 'noswizzle'):
        try: prog, bad = build(live, cfg, lib=lib)
        except BuildError: continue
        idx = [i for i, (c, r) in enumerate(zip(live, reps)) if c.id not in bad and not r.failed() and not getattr(r, 'error', None)]
        mod = modular.Modular(prog, seed, budget, lib)
        mod.prove_reachable([live[i] for i in idx])
        for i, r in zip(idx, parallel(prog, [live[i] for i in idx], lambda p, c: mod.verify(c))):
            a = reps[i]
            if getattr(r, 'error', None):
                a.error = r.error
                continue
            for o in r.obs: o.name += '@' + cfg
            if r.failed(): a.config = cfg
            a.obs = list(a.obs) + list(r.obs)
            a.cands = a.cands + r.cands
            a.functions |= r.functions
            a.libcalls |= r.libcalls
            a.used_contracts |= r.used_contracts
            a.inl += r.inl
            a.byc += r.byc
            for k, v in r.stats.items():
                q = a.stats.get(k, (0, 0.0))
                a.stats[k] = (q[0] + v[0], q[1] + v[1])
        done[cfg] = len(idx)
    return done


def conform_configs(progs, live, seed, out, skip=lambda cfg, c: False):
    """thorough tier of C28 and C29: the other configurations too"""
    from . import conform
    ev = {}
    for cfg, prog in progs.items():
        if cfg == 'debug': continue
        cs = [c for c in live if not skip(cfg, c)]
        n, k, bad = conform.run(prog, cs, seed, header_text(), per=20, config=cfg, end=time.time() + 120)
        ev[cfg] = {'points': n, 'contracts': k, 'mismatches': len(bad)}
        out.errors += ['conformance (%s): %s' % (cfg, b) for b in bad[:5]]
    return ev


def self_checks(prog, live, reps, seed, out, t0):
    """thorough tier: tests of the framework itself on this source (a failure is an error of the check, not a verdict)"""
    from . import conform
    ev = {}
    good = [c for c, r in zip(live, reps) if c.theory != 'lemma' and not getattr(r, 'error', None)]
    n, k, bad = conform.run(prog, good, seed, header_text(), per=60, end=time.time() + 150)
    ev['executor_conformance'] = {'points': n, 'contracts': k, 'mismatches': len(bad), 'rule': 'terms derived from the IR, evaluated on random and special inputs, against the g++-compiled code, bit for bit'}
    out.errors += ['conformance: ' + b for b in bad[:5]]
    with_r = [c for c in good if getattr(c, 'rounding', None)]
    if with_r:
        n, bad = conform.rounding_points(prog, with_r, seed, 40, time.time() + 100)
        ev['rounding_bound_conformance'] = {'points': n, 'mismatches': len(bad), 'rule': 'error of the machine evaluation against 40-digit evaluation of the same term, compared with the derived bound, at random points of the box'}
        out.errors += ['rounding bound: ' + b for b in bad[:5]]
    return ev


def conclude(prop, tier, seed, t0, m, cs, live, bad, prog, reps, out, extra=None):
    kf = {(e['property'], cid): e for e in known_findings() if e.get('status') == 'finding' for cid in e['contracts']}
    fails = []
    obl = dis = 0
    be, st = {}, {}
    funcs, libs, used = set(), set(), set()
    inl = byc = 0
    und = []
    callee_obl = {}
    for c, r in zip(live, reps):
        if getattr(r, 'error', None):
            out.errors.append('%s: %s' % (c.id, r.error[-1500:]))
            continue
        if r.vacuous: out.errors.append('precondition of %s not shown satisfiable' % c.id)
        allobs = list(r.obs)
        for cid, cobs in getattr(r, 'callee_obs', {}).items():
            if cid not in callee_obl:
                callee_obl[cid] = 1
                allobs += cobs
        k = kf.get((prop, c.id))
        for o in allobs:
            n = int(re.search(r'\(x(\d+)\)', o.name).group(1)) if '(x' in o.name else 1
            obl += n
            if o.status == 'proved':
                dis += n
                be[o.backend] = be.get(o.backend, 0) + n
        for kk, v in r.stats.items():
            a = st.setdefault(kk, [0, 0.0])
            a[0] += v[0]; a[1] += v[1]
        funcs |= r.functions
        libs |= r.libcalls
        used |= r.used_contracts
        inl += r.inl
        byc += r.byc
        if r.failed():
            if k and known_still(prog, c, k):
                if k['text'] not in out.known: out.known.append(k['text'])
                obl -= len([1 for o in r.obs if o.status != 'proved'])
                continue
            fails.append((c, r))
    for cid, err in bad.items():
        c = next(x for x in cs if x.id == cid)
        r = vf.Report(c)
        r.obs.append(vf.Ob(cid + '/client-compiles', 'client-compiles', 'refuted', 'clang', err))
        obl += 1
        path = write_replay(prop, c, r, {'inputs': 'any program containing: ' + c.cxx, 'observed': 'does not compile: ' + err[:600], 'expected': 'compiles'}, 'debug', len(out.violations))
        out.violations.append('VIOLATION property=%s replay=%s' % (prop, path))
    n_failed_contracts = len(fails)
    if fails:
        fails.sort(key=lambda cr: (0 if any(o.status == 'refuted' for o in cr[1].failed()) else 1))
        shown = fails[:8]
        res = getattr(m, 'search', replay_failures)(prop, cs, shown, prog, seed, out, bad)
        for n, (c, r, w) in enumerate(res):
            path = write_replay(prop, c, r, w, getattr(r, 'config', 'debug'), n)
            o = r.failed()[0]
            print('failed obligation: %s [%s] %s' % (o.name, o.status, o.why[:300]))
            out.violations.append('VIOLATION property=%s replay=%s%s' % (prop, path, '' if w else ' no-failing-input-found'))
        # a reproduced failure speaks for the property: list those first, and only those when there are any
        rep_ = [v for v in out.violations if not v.endswith('no-failing-input-found')]
        if rep_: out.violations = rep_
    elif tier == 'quick' and not out.violations and not hasattr(m, 'search') and time.time() - t0 < 300:
        extra = dict(extra or {}, executor_conformance=compiled_code(prop, cs, live, prog, seed, out))
    ctl = controls(prog, live, reps, seed, prop, 3 if tier == 'quick' else 40)
    if tier == 'thorough' and not out.violations: extra = dict(extra or {}, **self_checks(prog, live, reps, seed, out, t0))
    if ctl[0] == 0 and live: out.errors.append('no negative control ran')
    if ctl[1]: out.errors.append('negative control proved: %s' % ctl[1])
    import z3
    fun = sorted(demangle(f) for f in funcs if '3zcm' in f or 'zcm' in f)
    ev = {
        'obligations': obl, 'discharged': dis, 'contracts': len(cs), 'contracts_failed': n_failed_contracts + len(bad),
        'checker_cmd': 'python3-vt check.py %s' % prop, 'trusted_base': TRUSTED,
        'backends': be, 'solver_stats': {k: {'queries': v[0], 'seconds': round(v[1], 3)} for k, v in st.items()},
        'functions_under_contract': fun, 'functions_under_contract_count': len(fun),
        'library_functions_assumed': sorted(libs), 'calls_by_contract': byc, 'calls_inlined': inl, 'callee_contracts_used': sorted(used),
        'negative_controls_rejected': ctl[0], 'solver_versions': {'z3': z3.get_version_string()},
        'sample_contracts': [{'id': c.id, 'code': c.cxx, 'params': [p.name + ':' + p.type for p in c.params], 'theory': c.theory} for c in cs[:3]],
        'assumptions': list(getattr(m, 'ASSUMPTIONS', [])),
        'bounded': list(getattr(m, 'BOUNDED', [])),
    }
    if extra: ev.update(extra)
    return finish(prop, tier, seed, t0, ev, out)


def compiled_code(prop, cs, live, prog, seed, out):
    """everything was proved of clang's translation; does the code g++ compiles, the one that runs, agree with it?  A few
    points per contract.  Where it does not and the compiled code breaks the contract, that is the violation."""
    from . import conform
    good = [c for c in live if c.theory != 'lemma']
    n, k, bad = conform.run(prog, good, seed, header_text(), per=6, end=time.time() + 45)
    ev = {'points': n, 'contracts': k, 'mismatches': len(bad), 'rule': 'terms derived from the IR, evaluated on a few inputs, against the g++-compiled code, bit for bit; a mismatch that breaks the contract is a violation'}
    fails = []
    for b in bad:
        if not getattr(b, 'cid', None): continue
        c = next(x for x in live if x.id == b.cid)
        r = vf.Report(c)
        r.cands.append(b.vals)
        r.obs.append(vf.Ob(c.id + '/compiled-code', 'translation', 'unknown', None, 'the compiled code departs from the translation that was verified: ' + b))
        fails.append((c, r))
    for j, (c, r, w) in enumerate(replay_failures(prop, cs, fails[:6], prog, seed, out, {}) if fails else ()):
        print('note: ' + r.obs[0].why[:300])
        if not w: continue
        path = write_replay(prop, c, r, w, 'debug', j)
        print('failed obligation: %s [%s] %s' % (r.obs[0].name, r.obs[0].status, r.obs[0].why[:300]))
        out.violations.append('VIOLATION property=%s replay=%s' % (prop, path))
    return ev


def controls(prog, cs, reps, seed, prop, want=3):
    rng = random.Random('control/%s/%s' % (seed, prop))
    good = [c for c, r in zip(cs, reps) if r.obs and not r.failed() and c.theory != 'lemma']
    rng.shuffle(good)
    n, bad = 0, []
    end = time.time() + 90
    for c in good[:want]:
        if n >= 3 and time.time() > end: break
        try:
            if vf.control(prog, c, seed): n += 1
            else: bad.append(c.id)
        except Exception as e:
            bad.append('%s: %r' % (c.id, e))
    return n, bad


def known_still(prog, c, k):
    """is the failure exactly the recorded one?  (the recorded behaviour is itself a contract and must be proved)"""
    if not getattr(c, 'as_found', None): return False
    c2 = c.as_found
    r = vf.verify(prog, c2)
    return not r.failed()


_dm = {}


def demangle(n):
    if n not in _dm:
        import subprocess
        p = subprocess.run(['c++filt', n.lstrip('@').strip('"')], stdout=subprocess.PIPE, universal_newlines=True)
        _dm[n] = p.stdout.strip()
    return _dm[n]
