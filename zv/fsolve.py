"""Back end F: bit-exact IEEE 754 / bit-vector obligations, discharged by z3 (cvc5 as a second solver)."""
import time, subprocess, os
import z3
from .terms import *

F32, F64 = z3.Float32(), z3.Float64()
RNE = z3.RNE()
stats = {}


def note(backend, dt):
    s = stats.setdefault(backend, [0, 0.0])
    s[0] += 1
    s[1] += dt


class Enc:
    """mode 'uf': float arithmetic is uninterpreted, comparisons exact; mode 'fp': arithmetic exact too"""

    def __init__(self, mode):
        self.mode = mode
        self.memo = {}
        self.ufs = {}
        self.side = []
        self.vars = {}
        self.inexact = False

    def sort(self, s):
        if s == 'b': return z3.BoolSort()
        if s == 'f': return F32
        if s == 'd': return F64
        return z3.BitVecSort(s)

    def uf(self, name, args, s):
        self.inexact = True
        key = (name, tuple(a.sort().name() + str(a.sort()) for a in args), s)
        f = self.ufs.get(key)
        if f is None:
            f = self.ufs[key] = z3.Function('u_%s_%d' % (name, len(self.ufs)), *([a.sort() for a in args] + [self.sort(s)]))
        return f(*args)

    def enc(self, t):
        for x in subterms([t]):
            if x not in self.memo: self.memo[x] = self.one(x)
        return self.memo[t]

    def one(self, x):
        op, s = x.op, x.sort
        A = [self.memo[a] if isinstance(a, T) else a for a in x.args]
        if op == 'c':
            if s == 'b': return z3.BoolVal(A[0])
            if s in ('f', 'd'): return z3.fpBVToFP(z3.BitVecVal(A[0], 32 if s == 'f' else 64), self.sort(s)) if fval(x) == fval(x) else z3.fpNaN(self.sort(s))
            return z3.BitVecVal(A[0], s)
        if op == 'v':
            v = z3.Const(A[0], self.sort(s))
            self.vars[x] = v
            return v
        if op == 'not': return z3.Not(A[0])
        if op == 'and' and s == 'b': return z3.And(*A)
        if op == 'ite': return z3.If(A[0], A[1], A[2])
        if op == 'add': return A[0] + A[1]
        if op == 'sub': return A[0] - A[1]
        if op == 'mul': return self.uf('imul', A, s) if self.mode == 'bvmul' else A[0] * A[1]
        if op == 'udiv': return z3.UDiv(A[0], A[1])
        if op == 'urem': return z3.URem(A[0], A[1])
        if op == 'sdiv': return A[0] / A[1]
        if op == 'srem': return z3.SRem(A[0], A[1])
        if op == 'and': return A[0] & A[1]
        if op == 'or': return A[0] | A[1]
        if op == 'xor': return A[0] ^ A[1]
        if op == 'shl': return A[0] << A[1]
        if op == 'lshr': return z3.LShR(A[0], A[1])
        if op == 'ashr': return A[0] >> A[1]
        if op == 'ieq': return A[0] == A[1]
        if op == 'iult': return z3.ULT(A[0], A[1])
        if op == 'islt': return A[0] < A[1]
        if op in ('zext', 'sext'):
            a = A[0]
            if x.args[0].sort == 'b':
                return z3.If(a, z3.BitVecVal(1 if op == 'zext' else -1, s), z3.BitVecVal(0, s))
            return (z3.ZeroExt if op == 'zext' else z3.SignExt)(s - x.args[0].sort, a)
        if op == 'trunc': return z3.Extract(0, 0, A[0]) == 1
        if op == 'extract': return z3.Extract(A[1] + A[2] - 1, A[1], A[0])
        if op == 'concat': return z3.Concat(A[0], A[1])
        if op == 'bits2f': return z3.fpBVToFP(A[0], self.sort(s))
        if op == 'f2bits':
            bv = z3.BitVec('bits!%d' % x.args[0].id, s)
            self.side.append(z3.fpBVToFP(bv, A[0].sort()) == A[0])
            return bv
        if op == 'fneg': return z3.fpNeg(A[0])
        if op == 'isnan': return z3.fpIsNaN(A[0])
        if op == 'feq': return z3.fpEQ(A[0], A[1])
        if op == 'flt': return z3.fpLT(A[0], A[1])
        if op == 'fle': return z3.fpLEQ(A[0], A[1])
        if op == 'fpext': return z3.fpFPToFP(RNE, A[0], F64)
        ex = self.mode == 'fp'
        if op == 'fptrunc': return z3.fpFPToFP(RNE, A[0], F32) if ex else self.uf(op, A, s)
        if op == 'sitofp': return z3.fpSignedToFP(RNE, A[0], self.sort(s)) if ex else self.uf(op, A, s)
        if op == 'uitofp': return z3.fpUnsignedToFP(RNE, A[0], self.sort(s)) if ex else self.uf(op, A, s)
        if op == 'fptosi': return z3.fpToSBV(z3.RTZ(), A[0], z3.BitVecSort(s)) if ex else self.uf(op, A, s)
        if op == 'fptoui': return z3.fpToUBV(z3.RTZ(), A[0], z3.BitVecSort(s)) if ex else self.uf(op, A, s)
        if op == 'fadd': return z3.fpAdd(RNE, A[0], A[1]) if ex else self.uf(op, A, s)
        if op == 'fmul': return z3.fpMul(RNE, A[0], A[1]) if ex else self.uf(op, A, s)
        if op == 'fdiv': return z3.fpDiv(RNE, A[0], A[1]) if ex else self.uf(op, A, s)
        if op == 'fn':
            n, a = A[0], A[1:]
            if n == 'fabs': return z3.fpAbs(a[0])
            rm = {'floor': z3.RTN(), 'ceil': z3.RTP(), 'trunc': z3.RTZ(), 'round': z3.RNA(), 'rint': z3.RNE()}.get(n)
            if rm is not None: return z3.fpRoundToIntegral(rm, a[0])
            if n == 'copysign':
                return z3.If(z3.fpIsNaN(a[1]), self.uf('copysign', a, s), z3.If(z3.fpIsNegative(a[0]) == z3.fpIsNegative(a[1]), a[0], z3.fpNeg(a[0])))
            if n in ('fmin', 'fmax'):
                c = z3.fpLT(a[0], a[1]) if n == 'fmin' else z3.fpLT(a[1], a[0])
                eqz = z3.And(z3.fpEQ(a[0], a[1]))
                return z3.If(z3.fpIsNaN(a[0]), a[1], z3.If(z3.fpIsNaN(a[1]), a[0], z3.If(eqz, self.uf(n, a, s) if False else a[1], z3.If(c, a[0], a[1]))))
            if ex and n == 'sqrt': return z3.fpSqrt(RNE, a[0])
            if ex and n == 'fma': return z3.fpFMA(RNE, *a)
            if ex and n == 'muladd': return z3.fpAdd(RNE, z3.fpMul(RNE, a[0], a[1]), a[2])
            r = self.uf('fn_' + n, a, s)
            return r
        raise ValueError('enc ' + op)

    def model_env(self, m, extra=()):
        import numpy as np
        from .evalt import frombits
        env = {}
        for x, v in self.vars.items():
            mv = m.eval(v, model_completion=True)
            if x.sort == 'b': env[x] = z3.is_true(mv)
            elif x.sort in ('f', 'd'):
                b = z3.simplify(z3.fpToIEEEBV(mv))
                bb = b.as_long() if z3.is_bv_value(b) else (0x7fc00000 if x.sort == 'f' else 0x7ff8 << 48)
                env[x] = frombits(bb, x.sort)
            else: env[x] = mv.as_long()
        return env


class EncBV(Enc):
    """floats as their IEEE encodings: comparisons, sign operations and encodings exact, arithmetic uninterpreted"""

    def sort(self, s):
        if s == 'b': return z3.BoolSort()
        if s == 'f': return z3.BitVecSort(32)
        if s == 'd': return z3.BitVecSort(64)
        return z3.BitVecSort(s)

    def uf(self, name, args, s):
        self.inexact = True
        key = (name, tuple(str(a.sort()) for a in args), s)
        f = self.ufs.get(key)
        if f is None: f = self.ufs[key] = z3.Function('u_%s_%d' % (name, len(self.ufs)), *([a.sort() for a in args] + [self.sort(s)]))
        return f(*args)

    def nan(self, a):
        n = a.size()
        e, m = (8, 23) if n == 32 else (11, 52)
        return z3.UGT(z3.Extract(n - 2, 0, a), z3.BitVecVal(((1 << e) - 1) << m, n - 1))

    def zero(self, a): return z3.Extract(a.size() - 2, 0, a) == 0

    def key(self, a):
        """order-preserving map of non-NaN encodings into signed integers"""
        n = a.size()
        return z3.If(z3.Extract(n - 1, n - 1, a) == 1, -z3.ZeroExt(1, z3.Extract(n - 2, 0, a)), z3.ZeroExt(1, z3.Extract(n - 2, 0, a)))

    def cmp(self, op, a, b):
        ok = z3.And(z3.Not(self.nan(a)), z3.Not(self.nan(b)))
        if op == 'feq': return z3.And(ok, z3.Or(a == b, z3.And(self.zero(a), self.zero(b))))
        ka, kb = self.key(a), self.key(b)
        return z3.And(ok, ka < kb if op == 'flt' else ka <= kb)

    def one(self, x):
        op, s = x.op, x.sort
        A = [self.memo[a] if isinstance(a, T) else a for a in x.args]
        if op == 'c' and s in ('f', 'd'): return z3.BitVecVal(A[0], 32 if s == 'f' else 64)
        if op in ('f2bits', 'bits2f'): return A[0]
        if op == 'fneg': return A[0] ^ z3.BitVecVal(1 << (A[0].size() - 1), A[0].size())
        if op == 'isnan': return self.nan(A[0])
        if op in ('feq', 'flt', 'fle'): return self.cmp(op, A[0], A[1])
        if op == 'fn' and A[0] == 'fabs': return A[1] & z3.BitVecVal((1 << (A[1].size() - 1)) - 1, A[1].size())
        if op == 'fn' and A[0] == 'copysign':
            n = A[1].size()
            return (A[1] & z3.BitVecVal((1 << (n - 1)) - 1, n)) | (A[2] & z3.BitVecVal(1 << (n - 1), n))
        if op == 'fn' and A[0] in ('fmin', 'fmax'):
            a, b = A[1:]
            c = self.cmp('flt', a, b) if A[0] == 'fmin' else self.cmp('flt', b, a)
            return z3.If(self.nan(a), b, z3.If(self.nan(b), a, z3.If(self.cmp('feq', a, b), b, z3.If(c, a, b))))
        if op == 'fn': return self.uf('fn_' + A[0], A[1:], s)
        if op in ('fpext', 'fptrunc', 'sitofp', 'uitofp', 'fptosi', 'fptoui', 'fadd', 'fmul', 'fdiv'):
            if op in ('fadd', 'fmul'): A = sorted(A, key=lambda t: t.get_id())
            return self.uf(op, A, s)
        return Enc.one(self, x)

    def model_env(self, m, extra=()):
        from .evalt import frombits
        env = {}
        for x, v in self.vars.items():
            mv = m.eval(v, model_completion=True)
            if x.sort == 'b': env[x] = z3.is_true(mv)
            elif x.sort in ('f', 'd'): env[x] = frombits(mv.as_long(), x.sort)
            else: env[x] = mv.as_long()
        return env


def goal_formula(e, kind, lhs, rhs):
    if kind == 'true': return e.enc(lhs)
    a, b = e.enc(lhs), e.enc(rhs)
    if isinstance(e, EncBV) and lhs.sort in ('f', 'd'):
        same = z3.Or(a == b, z3.And(e.nan(a), e.nan(b)))
        return z3.Or(same, z3.And(e.zero(a), e.zero(b))) if kind == 'equal' else same
    if lhs.sort in ('f', 'd') and kind == 'equal':
        return z3.Or(z3.fpEQ(a, b), z3.And(z3.fpIsNaN(a), z3.fpIsNaN(b)))
    return a == b


COMM = {'add', 'mul', 'and', 'or', 'xor', 'ieq', 'feq', 'fadd', 'fmul'}


_leaf = {}


def conjuncts(t):
    if t.op == 'and': return [x for a in t.args for x in conjuncts(a)]
    if t.op == 'not' and t.args[0].op == 'or': return [x for a in t.args[0].args for x in conjuncts(NOT(a))]
    return [t]


def congruent(hyps, p, q, budget=60, deadline=40.0):
    """proof rule: hyps |- p == q when the two terms have the same shape and the hypotheses make each pair
    of corresponding inputs equal, the leaves (a node over at most two input scalars in all) being decided
    by the solver on their own.  Nothing is assumed about the operators: equals in, equals out."""
    hyps = [x for h in hyps for x in conjuncts(h)]
    fv = {h: free_vars(h) for h in hyps}
    memo, left, t0 = {}, [budget], time.time()
    vars_ = {}

    def vs(t):
        if t not in vars_: vars_[t] = free_vars(t)
        return vars_[t]

    def leaf(a, b):
        if a.sort != b.sort or a.sort in ('f', 'd') or left[0] <= 0 or time.time() - t0 > deadline: return False
        both = set(vs(a)) | set(vs(b))
        if not both or len(both) > 2: return False
        names = {v: var('leaf!%d' % i, v.sort) for i, v in enumerate(sorted(both, key=lambda v: v.id))}
        rel = [h for h in hyps if set(fv[h]) <= both]
        ts = subst([a, b] + rel, names)
        key = (ts[0], ts[1], frozenset(ts[2:]))
        if key not in _leaf:
            left[0] -= 1
            _leaf[key] = solve(ts[0], ts[1], ts[2:])
        return _leaf[key]

    def solve(a, b, rel):
        for e in (EncBV('bv'), Enc('fp')):
            s = z3.Solver()
            s.set('timeout', 10000 if e.__class__ is Enc else 2000)
            for h in rel: s.add(e.enc(h))
            g = e.enc(a) != e.enc(b)
            for h in e.side: s.add(h)
            s.add(g)
            r = s.check()
            if r != z3.sat or not e.inexact: return r == z3.unsat
        return False

    def go(a, b):
        if a is b: return True
        k = (a, b)
        if k in memo: return memo[k]
        memo[k] = False
        ok = False
        if a.op == b.op and a.sort == b.sort and a.op not in ('c', 'v') and len(a.args) == len(b.args):
            def args(y): return all(u is v if isinstance(u, T) and isinstance(v, T) and u is v else
                                    (go(u, v) if isinstance(u, T) and isinstance(v, T) else u == v) for u, v in zip(a.args, y))
            ok = args(b.args) or (a.op in COMM and len(b.args) == 2 and args(b.args[::-1]))
        memo[k] = ok = ok or leaf(a, b)
        return ok
    return go(p, q)


def by_congruence(hyps, kind, lhs, rhs):
    if kind in ('same', 'equal') and lhs.sort == 'b' and rhs is TRUE: kind = 'true'
    if kind == 'true':
        cs = conjuncts(NOT(lhs))
        ne = [c for c in cs if c.op == 'not' and c.args[0].op == 'ieq']
        if len(ne) != 1 or len(cs) < 2: return False
        return congruent(list(hyps) + [c for c in cs if c is not ne[0]], ne[0].args[0].args[0], ne[0].args[0].args[1])
    return False


def prove(hyps, kind, lhs, rhs, modes=('uf', 'fp'), timeout=(4000, 20000)):
    """returns (status, backend, env) ; status proved|refuted|unknown"""
    t0 = time.time()
    if kind in ('same', 'equal') and lhs is rhs:
        note('term-identity', time.time() - t0)
        return 'proved', 'term-identity', None
    if kind == 'true' and (lhs is TRUE or lhs in hyps):
        note('term-identity', time.time() - t0)
        return 'proved', 'term-identity', None
    if by_congruence(hyps, kind, lhs, rhs):
        note('congruence', time.time() - t0)
        return 'proved', 'congruence', None
    env = None
    if kind == 'true' and lhs.op != 'c' and any(x.sort in ('f', 'd') and x.op in ('fadd', 'fmul', 'fdiv', 'fn') for x in subterms([lhs])):
        from . import interval
        ok = interval.prove(hyps, lhs)
        note('interval', time.time() - t0) if ok else stats.setdefault('undischarged-time', [0, 0.0]).__setitem__(1, stats['undischarged-time'][1] + time.time() - t0)
        if ok: return 'proved', 'interval', None
    modes, timeout = list(modes), list(timeout)
    if 'uf' in modes:
        hasmul = any(x.op == 'mul' for x in subterms([lhs] + ([rhs] if rhs is not None else []) + list(hyps)))
        extra = ['bvmul'] if hasmul else ['bv']
        modes, timeout = extra + modes, [20000 if hasmul and timeout[0] >= 4000 else 4000] * len(extra) + timeout
    for mode, to in zip(modes, timeout):
        t0 = time.time()
        e = (EncBV if mode in ('bv', 'bvmul') else Enc)(mode)
        s = z3.Then('simplify', 'propagate-values', 'solve-eqs', 'smt').solver() if mode == 'bvmul' else z3.Solver()
        s.set('timeout', to)
        hs = [e.enc(h) for h in hyps]
        g = goal_formula(e, kind, lhs, rhs)
        for h in hs: s.add(h)
        for h in e.side: s.add(h)
        s.add(z3.Not(g))
        r = s.check()
        dt = time.time() - t0
        name = {'fp': 'z3-fp', 'uf': 'z3-fp-uf'}.get(mode, 'z3-bv-uf')
        if r == z3.unsat:
            note(name, dt)
            return 'proved', name, None
        if r == z3.sat:
            env = e.model_env(s.model())
            if not e.inexact: return 'refuted', name, env
        stats.setdefault('undischarged-time', [0, 0.0])[1] += dt
    return 'unknown', None, env


def sat(hyps, timeout=5000):
    """is the conjunction satisfiable? (vacuity guard)"""
    for mode in ('uf', 'fp'):
        e = Enc(mode)
        s = z3.Solver()
        s.set('timeout', timeout)
        for h in hyps: s.add(e.enc(h))
        for h in e.side: s.add(h)
        r = s.check()
        if r == z3.unsat: return False
        if r == z3.sat and not e.inexact: return e.model_env(s.model())
    return None


def enum_values(t, pc, limit=40):
    e = Enc('uf')
    s = z3.Solver()
    s.set('timeout', 5000)
    x = e.enc(t)
    s.add(e.enc(pc))
    out = []
    while len(out) < limit:
        for h in e.side: s.add(h)
        if s.check() != z3.sat: return out if s.check() == z3.unsat and out else None
        v = s.model().eval(x, model_completion=True).as_long()
        out.append(sgn(v, t.sort))
        s.add(x != v)
    return None
