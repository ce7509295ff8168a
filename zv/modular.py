"""Modular verification: a call to a function under contract is replaced by that contract.

Callee contracts are the contracts of the properties themselves plus contracts/lib.py.  One is usable in a check only
when every obligation of it was discharged in this run, on this source:
 * functional (spec): the results are the specified function of the arguments.  Proved bit-exactly it is usable in any
   caller; proved in real arithmetic it is usable in callers whose obligations are all in real arithmetic.
 * relational (ensures): the results are fresh values about which the postcondition is assumed; real-arithmetic callers only.
The callee's precondition becomes an obligation at the call.  When a caller fails with contracts in place of calls, it is
judged again with all bodies inlined, so an abstraction never raises an alarm by itself.
"""
import re, time, importlib, os
from . import fsolve, verify as vf
from .terms import *
from .contract import *
from .contract import KS
from .execir import *

REALTH = ('FR', 'FlR', 'R')
REALK = ('auto', 'autol', 'real', 'rtrue')
F_EXACT = {'evaluation of addresses', 'term-identity', 'z3-fp-uf', 'z3-fp', 'z3-bv-uf'}


def lib_contracts():
    """candidate callee contracts, preferred first"""
    out = []
    try:
        lib = importlib.import_module('contracts.lib')
        out += lib.contracts()
        skip, files = lib.SKIP, lib.FILES
    except ImportError: return []
    for n in files:
        for c in importlib.import_module('contracts.' + n).contracts():
            if c.stmt or not c.spec or getattr(c, 'as_found', None) or skip(c): continue
            out.append(c)
    for c in out:
        c.id = c.id if c.id.startswith('lib.') else 'lib.%s' % c.id
        c.fn = re.sub(r'\W', '_', c.id)
    seen, res = set(), []
    for c in out:
        if c.fn not in seen: res.append(c)
        seen.add(c.fn)
    return res


def one_call(prog, c):
    """the library function a one-call harness calls"""
    f = prog.extern.get('@H_' + c.fn)
    if f is None: return None
    syms = []
    for s in callees(f):
        if s is None: return None
        if not s[1:].strip('"').startswith('llvm.'): syms.append(s)
    return syms[0] if len(syms) == 1 else None


def callees(fun):
    """direct callees (None for an indirect call); cached"""
    r = getattr(fun, '_callees', None)
    if r is None:
        fun.parse()
        r = []
        for b in fun.blocks:
            try: ins = fun.instrs(b)
            except Undecided:          # reported when (and if) a contract's execution gets here
                r.append(None)
                continue
            for i in ins:
                if i.op in ('call', 'invoke'):
                    callee = i.a[1]
                    r.append(callee[1] if callee[0] == 'g' else None)
        fun._callees = r
    return r


def reachable(prog, fun, acc=None):
    acc = {} if acc is None else acc
    work = [(fun.mod, fun)]
    while work:
        mod, f = work.pop()
        for s in callees(f):
            if s is None or s in acc: continue
            g = prog.lookup(f.mod, s)
            if g is None: continue
            acc[s] = g
            work.append((g.mod, g))
    return acc


class Modular:
    def __init__(self, prog, seed, budget, lib=()):
        self.prog, self.seed, self.budget = prog, seed, budget
        self.map = {}          # symbol -> [contracts]
        self.state = {}        # contract id -> 'exact' | 'real' | 'relational'
        self.obs = {}
        self.reps = {}
        self.lib = list(lib)
        self.plan()

    # ------------------------------------------------------------- which functions have contracts
    def plan(self):
        for c in self.lib:
            s = one_call(self.prog, c)
            if s is None or s.startswith('@H_'): continue
            l = self.map.setdefault(s, [])
            if len(l) < 3: l.append(c)

    def groups(self, fun):
        fun.parse()
        out, sret = [], None
        for i, (ty, at, nm) in enumerate(fun.params):
            if 'sret' in at:
                sret = i
                continue
            base = re.sub(r'\.coerce\d*$', '', nm)
            if out and out[-1][0] == base and '.coerce' in nm: out[-1][1].append(i)
            else: out.append((base, [i]))
        return out, sret

    def layout(self, fun, c):
        """(result group or None, parameter groups) or None"""
        gs, sret = self.groups(fun)
        ps = c.params
        this = None
        if len(gs) == len(ps) + 1 and c.ret and sret is None and fun.mod.res(fun.ret)[0] in ('v', 'void') and gs[0][0].endswith('this'):
            this, gs = gs[0], gs[1:]
        if len(gs) != len(ps): return None
        return gs, sret, this

    def cellsort(self, k, kind): return 'f' if kind == 'f' else 8 * k

    def decode(self, ex, st, fun, c, av):
        """parameter values (V per contract parameter) seen by the callee"""
        lay = self.layout(fun, c)
        if lay is None: return None
        gs, sret, this = lay
        ins = {}
        for (base, idx), p in zip(gs, c.params):
            if p.ptr: return None
            k = KS[p.kind]
            ty = fun.mod.res(fun.params[idx[0]][0])
            if p.mode != 'in' and ty[0] != 'p': return None
            if p.mode == 'out': continue
            vs = V()
            if ty[0] == 'p':
                alts = ex.deref(st, av[idx[0]], p.size, 'read', fun.name, False)
                for i in range(p.count):
                    r = None
                    for cnd, o, off in reversed(alts):
                        v = ex.read_bytes(ex.getobj(st, o), off + i * k, k, self.cellsort(k, p.kind))
                        r = v if r is None else ite(cnd, v, r)
                    if r is None: return None
                    vs.append(trunc(r, 'b') if p.kind == 'B' else r)
            elif p.count == 1:
                v = av[idx[0]]
                if p.kind == 'B' and v.sort != 'b': v = trunc(v, 'b')
                vs.append(v)
            else:
                o = ex.newobj(st, max(p.size, 16) + 16, 'stack', 'abi')
                off = 0
                for i in idx:
                    t = fun.mod.res(fun.params[i][0])
                    ex._store(st, fun.mod, t, av[i], [(TRUE, o, off)], 0)
                    off += (fun.mod.store_size(t) + 7) // 8 * 8
                for i in range(p.count):
                    r = ex.read_bytes(st.mem[o], i * k, k, self.cellsort(k, p.kind))
                    vs.append(trunc(r, 'b') if p.kind == 'B' else r)
                del st.mem[o]
            ins[p.name] = vs
        return ins

    def outputs(self, c): return ([c.ret] if c.ret else []) + [p for p in c.params if p.mode != 'in']

    def deliver(self, ex, st, fun, c, av, res):
        """store results {name: terms} where the callee would; returns the call's value"""
        gs, sret, this = self.layout(fun, c)
        enc = lambda p, v: zext(v, 8) if p.kind == 'B' else v
        for (base, idx), p in zip(gs, c.params):
            if p.mode == 'in': continue
            alts = ex.deref(st, av[idx[0]], p.size, 'write', fun.name, True)
            for i, v in enumerate(res[p.name]): ex.store_scalar(st, [(cc, o, off + i * KS[p.kind]) for cc, o, off in alts], KS[p.kind], enc(p, v))
        if not c.ret: return None
        k, vals = KS[c.ret.kind], res['ret']
        p = av[sret] if sret is not None else av[this[1][0]] if this else None
        if p is not None:
            alts = ex.deref(st, p, c.ret.size, 'write', fun.name, True)
            for i, v in enumerate(vals): ex.store_scalar(st, [(cc, o, off + i * k) for cc, o, off in alts], k, enc(c.ret, v))
            return None
        rt = fun.mod.res(fun.ret)
        if c.ret.count == 1: return vals[0]
        o = ex.newobj(st, 64, 'stack', 'abi')
        for i, v in enumerate(vals): ex.store_scalar(st, [(TRUE, o, i * k)], k, enc(c.ret, v))
        r = ex._load(st, fun.mod, rt, st.mem[o], 0)
        del st.mem[o]
        return r

    def calibrate(self, c, sym):
        """on the contract's own harness: decoding the call's arguments gives exactly the contract's inputs, and values
        delivered as its results are exactly the contract's outputs"""
        seen = []
        ins = c.inputs()
        res = {p.name: V(var('res!%s[%d]' % (p.name, i), KSORT[p.kind]) for i in range(p.count)) for p in self.outputs(c)}

        def hook(ex, st, f, fun, args, av):
            got = self.decode(ex, st, fun, c, av)
            seen.append(got is not None and all(list(got[p.name]) == list(ins[p.name]) for p in c.params if p.mode != 'out'))
            if not seen[-1]: return NotImplemented
            return self.deliver(ex, st, fun, c, av, res)
        try: vc = vf.execute(self.prog, c, ins, {sym: hook})
        except (Undecided, KeyError, AttributeError, IndexError): return False
        return seen == [True] and vc.returns and not vc.frame and all(list(vc.outs[n]) == list(v) for n, v in res.items())

    # ------------------------------------------------------------- proving callee contracts
    def prove_reachable(self, roots):
        """prove (in parallel) the callee contracts that the given contracts' code can reach"""
        from . import driver
        need = {}
        for c in roots:
            f = self.prog.extern.get('@H_' + c.fn)
            if f is None: continue
            o = one_call(self.prog, c)
            if o is not None: f = self.prog.lookup(f.mod, o)     # what the function under contract itself calls
            if f is None: continue
            for s, g in reachable(self.prog, f).items():
                if s in self.map: need[s] = g
        todo = dict(need)
        while todo:
            # leaves first, so that callee contracts are themselves proved with callee contracts
            wave = [s for s, g in todo.items() if not any(t in todo and t != s for t in reachable(self.prog, g))] or list(todo)
            cs = [(s, c) for s in wave for c in self.map[s]]
            for s in wave: del todo[s]
            reps = driver.parallel(self.prog, [c for s, c in cs], lambda p, c: self.prove_callee(c))
            for (s, c), r in zip(cs, reps):
                if getattr(r, 'mod_state', None):
                    self.state[c.id] = r.mod_state
                    self.obs[c.id] = r.obs
                    self.reps[c.id] = r
        self.ready = True

    def prove_callee(self, c):
        sym = one_call(self.prog, c)
        if not self.calibrate(c, sym):
            r = vf.Report(c)
            r.mod_state = None
            return r
        r = self.verify(c, quiet=True)
        r.mod_state = None
        if not r.failed():
            if c.spec: r.mod_state = 'exact' if all(exact(o) for o in r.obs) and r.mode == 'exact' else 'real'
            else: r.mod_state = 'relational'
            if r.mod_state != 'exact' and not realonly(c): r.mod_state = None
        return r

    # ------------------------------------------------------------- use
    def hook(self, c):
        def h(ex, st, f, fun, args, av):
            ins = self.decode(ex, st, fun, c, av)
            if ins is None: return NotImplemented
            for r in c.reqs(ins): ex.obl('precondition', st, r, '%s: precondition of %s' % (f.name, c.id))
            res = {}
            if c.spec:
                r = c.spec(*c.bind(ins))
                if not isinstance(r, dict): r = {self.outputs(c)[0].name: r}
                for p in self.outputs(c):
                    v = r[p.name]
                    res[p.name] = [lift(x, KSORT[p.kind]) for x in (v if isinstance(v, (list, tuple)) else [v])]
            else:
                n = ex.fresh = getattr(ex, 'fresh', 0) + 1
                for p in self.outputs(c): res[p.name] = V(var('res!%s#%d.%s[%d]' % (c.fn, n, p.name, i), KSORT[p.kind]) for i in range(p.count))
                for g in c.goals(ins, res): ex.assumed.append((st.pc, g.lhs if g.rhs is None else g.lhs.eq(g.rhs)))
            ex.used_contracts.add(c.id)
            return self.deliver(ex, st, fun, c, av, res)
        return h

    def verify(self, c, quiet=False, **kw):
        own = one_call(self.prog, c)
        first = None
        if self.state and c.opts.get('modular', True):
            real = realonly(c)
            lazy = Lazy(self, c, own, real)
            r = vf.verify(self.prog, c, self.seed, lazy, self.budget, **kw)
            r.mode = 'real' if lazy.real_used else 'exact'
            if not r.failed():
                r.callee_obs = {cid: self.obs[cid] for cid in r.used_contracts}
                return r
            if not lazy.used:
                r.mode = 'exact'
                return r
            # never let an abstraction raise the alarm: judge the inlined code
        r = vf.verify(self.prog, c, self.seed, None, self.budget, **kw)
        r.mode = 'exact'
        return r


def exact(o): return o.backend in F_EXACT and (o.kind not in ('equal', 'autol', 'real', 'rtrue') or o.backend == 'term-identity')


def realonly(c):
    """every postcondition is a statement in real arithmetic about floats"""
    if c.theory not in REALTH: return False
    outs = ([c.ret] if c.ret else []) + [p for p in c.params if p.mode != 'in']
    if any(p.kind != 'f' for p in outs): return False
    r = getattr(c, '_realonly', None)
    if r is None:
        ov = {p.name: V(var('o!%s[%d]' % (p.name, i), KSORT[p.kind]) for i in range(p.count)) for p in outs}
        r = c._realonly = all(g.kind in REALK for g in c.goals(c.inputs(), ov))
    return r


class Lazy:
    def __init__(self, mod, c, own, real):
        self.mod, self.c, self.own, self.real = mod, c, own, real
        self.used = self.real_used = False
        self.memo = {}

    def get(self, name):
        if name == self.own: return None
        if name not in self.memo:
            h = None
            for c in self.mod.map.get(name, ()):
                s = self.mod.state.get(c.id)
                if s == 'exact' or (s in ('real', 'relational') and self.real):
                    h = self.mod.hook(c), s
                    break
            self.memo[name] = h
        h = self.memo[name]
        if h is None: return None
        self.used = True
        if h[1] != 'exact': self.real_used = True
        return h[0]

    def __bool__(self): return True
