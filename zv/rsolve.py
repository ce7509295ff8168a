"""Back end R: obligations in the real interpretation.

case split on the branch conditions  ->  rational functions over algebraic / trigonometric atoms, reduced modulo
the atoms' defining relations and the equational hypotheses (sound: equality of the normal forms implies equality
of the values)  ->  z3 (nlsat) for what is left.
"""
import time
from fractions import Fraction
from math import gcd
import z3
from . import poly as P
from .poly import Rat, radd, rmul, rneg, rdiv, rconst, rinv
from .terms import *
from .fsolve import note, stats

PI_LO, PI_HI = Fraction(314159265358979, 10 ** 14), Fraction(31415926535898, 10 ** 13)


class NeedSplit(Exception):
    def __init__(self, cond): self.cond = cond


class NotPoly(Exception):
    pass


class OutOfTime(Exception):
    pass


# ------------------------------------------------------------------ preprocessing
def prep(ts):
    """rewrite into the real fragment: no NaN/inf, abs/min/max/copysign as ite"""
    memo = {}
    ZERO = fc(0)
    for x in subterms(ts):
        if not any(isinstance(a, T) for a in x.args):
            memo[x] = x
            continue
        A = [memo[a] if isinstance(a, T) else a for a in x.args]
        op = x.op
        if op == 'isnan': r = FALSE
        elif op in ('feq', 'flt', 'fle') and any(isinf_c(a) for a in A):
            if op == 'feq': r = FALSE
            else:
                a, b = A
                r = boolc((isinf_c(a) < 0) or (isinf_c(b) > 0))
        elif op == 'fn':
            n = A[0]
            a = A[1]
            if n == 'fabs': r = ite(flt_(a, ZERO), fneg(a), a)
            elif n == 'fmin': r = ite(flt_(A[2], a), A[2], a)
            elif n == 'fmax': r = ite(flt_(a, A[2]), A[2], a)
            elif n == 'copysign':
                m = ite(flt_(a, ZERO), fneg(a), a)
                r = ite(flt_(A[2], ZERO), fneg(m), m)
            elif n in ('fma', 'muladd'): r = fadd(fmul(a, A[2]), A[3])
            elif n == 'hypot': r = fn('sqrt', fadd(fmul(a, a), fmul(A[2], A[2])))
            elif n == 'pow' and A[2].op == 'c' and fval(A[2]) in (1.0, 2.0, 3.0, 4.0):
                r = a
                for _ in range(int(fval(A[2])) - 1): r = fmul(r, a)
            elif n == 'pow' and A[2].op == 'c' and fval(A[2]) == 0.5: r = fn('sqrt', a)
            else: r = mk('fn', tuple(A), x.sort)
        elif op == 'ieq' and A[1].op == 'c' and A[1].args[0] == 0 and A[0].op == 'lshr' and A[0].args[1].op == 'c' \
                and A[0].args[0].op == 'f2bits' and A[0].args[1].args[0] == A[0].sort - 1:
            r = NOT(flt_(A[0].args[0].args[0], ZERO))
        elif op == 'islt' and A[0].op == 'f2bits' and A[1].op == 'c' and A[1].args[0] == 0:
            r = flt_(A[0].args[0], ZERO)
        elif op == 'fptrunc' or op == 'fpext': r = mk(op, tuple(A), x.sort) if not (A[0].op == 'c' and op == 'fpext') else fpext(A[0])
        else: r = rebuild(op, tuple(A), x.sort)
        memo[x] = r
    return [memo[t] for t in ts]


def flt_(a, b):
    if a.sort != b.sort: b = dc(fval(b))
    return fcmp_lt(a, b)


def isinf_c(t):
    if t.op == 'c' and t.sort in ('f', 'd'):
        v = fval(t)
        return 1 if v == float('inf') else -1 if v == float('-inf') else 0
    return 0


def cond_atoms(ts):
    """comparison atoms of ite conditions, innermost first"""
    out, seen = [], set()
    for x in subterms(ts):
        if x.op == 'ite':
            for a in subterms([x.args[0]]):
                if a.sort == 'b' and a.op in ('flt', 'fle', 'feq', 'v', 'ieq', 'iult', 'islt', 'trunc') and a not in seen:
                    seen.add(a)
                    out.append(a)
    return out


def has_ite(t, memo={}):
    r = memo.get(t)
    if r is None:
        r = t.op == 'ite' or any(has_ite(a) for a in t.args if isinstance(a, T))
        memo[t] = r
    return r


# ------------------------------------------------------------------ context of one leaf
class Ctx:
    def __init__(self, hyps, trig_terms=(), deadline=None, tol=1e-6, noelim=False):
        self.noelim = noelim    # keep equations as facts instead of solving them for a variable
        self.gens = []          # (kind, T)
        self.idx = {}
        self.rules = {}         # gen -> (k, Rat)
        self.nonneg = set()
        self.memo = {}
        self.hyps = []
        self.facts = []         # z3 formulas about gens
        self.zv = []
        self.signs = {}
        self.atoms = []         # (name, argkeys, gen, args)
        self.units = {}
        self.deadline = deadline
        self.tol = tol
        self.known = []         # (op, poly): poly op 0
        self.pi = None
        self.inconsistent = False
        self.linh = []          # (op, poly): hypotheses for the linear (monomial) abstraction
        self.side = []          # definedness facts assumed (z3)
        # variables first so that they get the low indices
        vs = set()
        for t in list(hyps) + list(trig_terms): free_vars(t, vs)
        for v in sorted(vs, key=lambda t: t.args[0]):
            if v.sort in ('f', 'd'): self.newgen('v', v)
        self.scan(trig_terms)
        pend = []
        for h in hyps:
            for c in (h.args if h.op == 'and' else (h,)):
                pend.append(c)
        eqs = [c for c in pend if c.op == 'feq']
        rest = [c for c in pend if c.op != 'feq']
        for c in eqs: self.assume_eq(c)
        for c in rest: self.assume(c)

    def check(self):
        if self.deadline and time.time() > self.deadline: raise OutOfTime()

    def newgen(self, kind, t, nonneg=False):
        i = len(self.gens)
        self.gens.append((kind, t))
        self.zv.append(z3.Real('g%d_%s' % (i, kind)))
        if nonneg:
            self.nonneg.add(i)
            self.facts.append(self.zv[i] >= 0)
        if kind == 'v': self.idx[t] = i
        return i

    # -------------------------------------------------------- trig units
    def scan(self, ts):
        for x in subterms(ts):
            if x.op == 'fn' and x.args[0] in ('sin', 'cos', 'tan') and not has_ite(x):
                try: r = self.rat(x.args[1])
                except (NeedSplit, NotPoly, P.TooBig): continue
                for b, c in self.angle_parts(r):
                    u = self.units.get(b)
                    self.units[b] = fgcd(u, abs(c)) if u else abs(c)
        self.memo = {k: v for k, v in self.memo.items() if not any(y.op == 'fn' and y.args[0] in ('sin', 'cos', 'tan') for y in subterms([k]))}

    def angle_parts(self, r):
        """[(base key, coefficient)] ; base key: ('m', monomial) or ('r', canonical rat)"""
        if not r.d:
            return [(('m', m), Fraction(c)) for m, c in r.n.items() if c]
        c, n = P.monic(r.n)
        return [(('r', P.key(n), frozenset((k, e) for k, (p, e) in r.d.items())), Fraction(c))]

    def trig_base(self, b, r):
        """(C, S) rats for unit*base"""
        if ('cs', b) in self.idx: return self.idx[('cs', b)]
        u = self.units[b]
        C = S = None
        if b[0] == 'm':
            m = b[1]
            gs = P.gens_of({m: 1})
            if m == 0: bt = fc(1)
            else:
                bt = self.mono_term(m)
            if len(gs) == 1 and P.exp_of(m, gs[0]) == 1 and self.gens[gs[0]][0] in ('acos', 'asin', 'atan2', 'atan'):
                kind, t = self.gens[gs[0]]
                args = self.atom_args[gs[0]]
                one = rconst(1)
                if kind == 'acos' and u in (1, Fraction(1, 2)):
                    c = args[0]
                    if u == 1: C, S = c, self.sqrt_rat(radd(one, rneg(rmul(c, c))))
                    else: C, S = self.sqrt_rat(rmul(radd(one, c), rconst(Fraction(1, 2)))), self.sqrt_rat(rmul(radd(one, rneg(c)), rconst(Fraction(1, 2))))
                elif kind == 'asin' and u == 1:
                    s = args[0]
                    S, C = s, self.sqrt_rat(radd(one, rneg(rmul(s, s))))
                elif kind == 'asin' and u == Fraction(1, 2):
                    s = args[0]
                    c = self.sqrt_rat(radd(one, rneg(rmul(s, s))))
                    C = self.sqrt_rat(rmul(radd(one, c), rconst(Fraction(1, 2))))
                    S = rmul(s, rinv(rmul(rconst(2), C)))
                elif kind == 'atan2' and u == 1:
                    h = self.sqrt_rat(radd(rmul(args[0], args[0]), rmul(args[1], args[1])))
                    hi = self.inv(h)
                    S, C = rmul(args[0], hi), rmul(args[1], hi)
                elif kind == 'atan' and u == 1:
                    h = self.inv(self.sqrt_rat(radd(one, rmul(args[0], args[0]))))
                    S, C = rmul(args[0], h), h
        else:
            bt = None
        if C is None:
            ut = None
            if bt is not None: ut = fmul(mkreal(u), bt) if u != 1 else bt
            c = self.newgen('cos', fn('cos', ut) if ut is not None else None)
            s = self.newgen('sin', fn('sin', ut) if ut is not None else None)
            C, S = Rat(P.gen(c)), Rat(P.gen(s))
            self.rules[s] = (2, radd(rconst(1), rneg(rmul(C, C))))
            self.facts.append(self.zv[s] * self.zv[s] + self.zv[c] * self.zv[c] == 1)
            self.trigbase = getattr(self, 'trigbase', {})
            self.trigbase[c] = ('cos', b, u)
            self.trigbase[s] = ('sin', b, u)
        self.idx[('cs', b)] = (C, S)
        return C, S

    def sincos(self, r):
        """(cos, sin) of a rational angle"""
        if not r.n: return rconst(1), rconst(0)
        tot = None
        for b, c in self.angle_parts(r):
            if b not in self.units: self.units[b] = abs(c)
            u = self.units[b]
            k = c / u
            if k.denominator != 1: raise NotPoly('angle unit')
            k = int(k)
            C, S = self.trig_base(b, r)
            neg_, k = (k < 0), abs(k)
            cc, ss = rconst(1), rconst(0)
            for _ in range(k):
                cc, ss = self.red(radd(rmul(cc, C), rneg(rmul(ss, S)))), self.red(radd(rmul(cc, S), rmul(ss, C)))
            if neg_: ss = rneg(ss)
            tot = (cc, ss) if tot is None else (self.red(radd(rmul(tot[0], cc), rneg(rmul(tot[1], ss)))), self.red(radd(rmul(tot[0], ss), rmul(tot[1], cc))))
        return tot

    # -------------------------------------------------------- terms <-> rats
    def mono_term(self, m):
        t = None
        for i in P.gens_of({m: 1}):
            g = self.gens[i][1]
            if g is None: raise NotPoly('no term for generator')
            for _ in range(P.exp_of(m, i)): t = g if t is None else mk('fmul', (t, tosort(g, t.sort)), t.sort)
        return t if t is not None else fc(1)

    def poly_term(self, p):
        t = None
        for m, c in sorted(p.items()):
            x = self.mono_term(m)
            if m == 0: x = mkreal(c, x.sort)
            elif c != 1: x = mk('fmul', (mkreal(c, x.sort), x), x.sort)
            t = x if t is None else mk('fadd', (t, tosort(x, t.sort)), t.sort)
        return t if t is not None else fc(0)

    def red(self, r):
        """reduce the numerator modulo the rules"""
        if not self.rules: return r
        for g in sorted(self.rules, reverse=True):
            k, rhs = self.rules[g]
            sh = P.W * g
            n = r.n
            if not any(((m >> sh) & P.MASK) >= k for m in n): continue
            self.check()
            groups = {}
            for m, c in n.items():
                e = (m >> sh) & P.MASK
                q, rem = divmod(e, k)
                m2 = m - ((e - rem) << sh)
                d = groups.setdefault(q, {})
                d[m2] = d.get(m2, 0) + c
            tot = Rat(groups.pop(0, {}))
            pw = rconst(1)
            q0 = 0
            for q in sorted(groups):
                while q0 < q:
                    pw = rmul(pw, rhs)
                    q0 += 1
                tot = radd(tot, rmul(Rat({m: c for m, c in groups[q].items() if c}), pw))
            d = dict(tot.d)
            for kk, (p, e) in r.d.items(): P.dmerge(d, p, e)
            r = P.cancel(Rat(tot.n, d))
        return r

    def inv(self, r):
        r = self.red(r)
        if not r.n: raise NotPoly('division by zero')
        return rinv(r)

    def rat(self, t):
        for x in subterms([t]):
            if x in self.memo or x.sort not in ('f', 'd'): continue
            self.memo[x] = self.rat1(x)
        return self.memo[t]

    def rat1(self, x):
        self.check()
        op = x.op
        m = self.memo
        if op == 'c':
            f = frac(x)
            if f is None: raise NotPoly('non-finite constant')
            return rconst(f)
        if op == 'v':
            i = self.idx.get(x)
            if i is None: i = self.newgen('v', x)
            return self.red(Rat(P.gen(i)))
        if op == 'real': return rconst(x.args[0])
        if op == 'fneg': return rneg(m[x.args[0]])
        if op == 'fadd': return radd(m[x.args[0]], m[x.args[1]])
        if op == 'fmul': return self.red(rmul(m[x.args[0]], m[x.args[1]]))
        if op == 'fdiv': return self.red(rmul(m[x.args[0]], self.inv(m[x.args[1]])))
        if op in ('fpext', 'fptrunc'): return m[x.args[0]]
        if op == 'ite': raise NeedSplit(x.args[0])
        if op == 'fn':
            name = x.args[0]
            args = [m[a] for a in x.args[1:]]
            return self.red(self.fnrat(name, args, x))
        return self.opaque(op, (), x)

    def atomkey(self, r): return (P.key(r.n), frozenset((k, e) for k, (p, e) in r.d.items()))

    def close(self, a, b):
        if set(a.d) != set(b.d) or set(a.n) != set(b.n): return False
        return all(abs(a.n[k] - b.n[k]) <= self.tol * max(abs(a.n[k]), abs(b.n[k])) for k in a.n)

    def opaque(self, name, args, x, nonneg=False):
        for nm, as_, g, t in self.atoms:
            if nm == name and len(as_) == len(args) and (t is x if not args else all(self.close(u, v) for u, v in zip(as_, args))):
                return Rat(P.gen(g))
        g = self.newgen(name, x, nonneg)
        self.atoms.append((name, list(args), g, x))
        self.atom_args = getattr(self, 'atom_args', {})
        self.atom_args[g] = list(args)
        return Rat(P.gen(g))

    def fnrat(self, name, args, x):
        if name == 'sqrt': return self.sqrt_rat(args[0])
        if name in ('sin', 'cos', 'tan'):
            c, s = self.sincos(args[0])
            return s if name == 'sin' else c if name == 'cos' else self.red(rmul(s, self.inv(c)))
        if name in ('acos', 'asin'):
            r = args[0]
            # inverse of a known cosine / sine
            if not r.d and len(r.n) == 1:
                (mm, c), = r.n.items()
                gs = P.gens_of({mm: 1})
                if abs(c) == 1 and len(gs) == 1 and P.exp_of(mm, gs[0]) == 1:
                    tb = getattr(self, 'trigbase', {}).get(gs[0])
                    if tb and tb[0] == ('cos' if name == 'acos' else 'sin') and tb[1][0] == 'm':
                        ang = P.rmul(Rat({tb[1][1]: 1}), rconst(tb[2]))
                        if c == -1 and name == 'asin': ang = rneg(ang)
                        if c == 1 or name == 'asin':
                            lo, hi = (0, 1) if name == 'acos' else (Fraction(-1, 2), Fraction(1, 2))
                            z = self.z(ang)
                            if self.zproves(z3.And(z >= lo * self.zpi(), z <= hi * self.zpi())): return ang
            if r.isconst() and P.cval(r.n) == (1 if name == 'acos' else 0): return rconst(0)
            g = self.opaque(name, args, x)
            gi = P.gens_of(g.n)[0]
            z = self.zv[gi]
            pi = self.zpi()
            if name == 'acos': self.facts += [z >= 0, z <= pi]
            else: self.facts += [z >= -pi / 2, z <= pi / 2]
            return g
        if name in ('atan', 'atan2'):
            g = self.opaque(name, args, x)
            z = self.zv[P.gens_of(g.n)[0]]
            pi = self.zpi()
            self.facts += [z >= -pi, z <= pi] if name == 'atan2' else [z > -pi / 2, z < pi / 2]
            return g
        if name in ('floor', 'ceil', 'trunc', 'round', 'rint'):
            r = args[0]
            if r.isconst() and Fraction(P.cval(r.n)).denominator == 1: return r
            g = self.opaque(name, args, x)
            z = self.zv[P.gens_of(g.n)[0]]
            try:
                a = self.z(r)
                if name == 'floor': self.facts += [z <= a, a < z + 1, z3.IsInt(z)]
                if name == 'ceil': self.facts += [z >= a, a > z - 1, z3.IsInt(z)]
            except NotPoly: pass
            return g
        if name in ('exp', 'exp2'):
            r = args[0]
            if not r.n: return rconst(1)
            g = self.opaque(name, args, x, nonneg=True)
            return g
        if name == 'pow':
            if args[1].isconst():
                c = Fraction(P.cval(args[1].n))
                if c == 0: return rconst(1)
                if c.denominator == 1 and 0 < c <= 8:
                    r = rconst(1)
                    for _ in range(int(c)): r = self.red(rmul(r, args[0]))
                    return r
            return self.opaque(name, args, x)
        if name == 'cbrt':
            g = self.opaque(name, args, x)
            gi = P.gens_of(g.n)[0]
            self.rules[gi] = (3, args[0])
            return g
        return self.opaque(name, args, x)

    def sqrt_rat(self, r):
        r = self.red(r)
        if not r.n: return rconst(0)
        out = rconst(1)
        n = r.n
        den_in = {}
        # denominators: pull out even powers
        for k, (p, e) in r.d.items():
            q, o = divmod(e, 2)
            if q:
                out = rmul(out, rinv(self.absval(Rat(P.ppow(p, 1))) if q % 2 else Rat(p)) if False else self.powinv(p, q))
            if o:
                if self.sqrt_gen_square(p): pass
                den_in[k] = (p, 1)
        # sqrt(n/d) = sqrt(n*d)/|d| for the odd part
        for p, e in den_in.values():
            n = P.pmul(n, p)
            out = rmul(out, self.powinv(p, 1))
        rn = self.red(Rat(n))
        if rn.d:
            # reduction introduced denominators again: one more round
            inner = self.sqrt_rat(rn)
            return self.red(rmul(out, inner))
        n = rn.n
        if not n: return rconst(0)
        c, fs = P.factors(n)
        if len(n) <= 400:
            try:
                c, fs = P.sqfactor(n)
            except Exception: pass
        rest = {0: 1}
        apart = []
        for p, e in fs:
            q, o = divmod(e, 2)
            if q:
                a = Rat(P.ppow(p, q))
                if q % 2: a = self.absval(a)
                out = rmul(out, a)
            if o:
                if not P.isconst(p) and self.sign_syn(p) == 1: apart.append(p)
                else: rest = P.pmul(rest, p)
        c = Fraction(c)
        if c < 0:
            rest, c = P.pneg(rest), -c
        sn, sd = isqrt_part(c.numerator), isqrt_part(c.denominator)
        # c = sn.0^2 * sn.1 / (sd.0^2 * sd.1)  -> sqrt(c) = sn0/(sd0*sd1) * sqrt(sn1*sd1)
        out = rmul(out, rconst(Fraction(sn[0], sd[0] * sd[1])))
        k = sn[1] * sd[1]
        if apart and P.isconst(rest) and k != 1:
            apart[0] = P.pscale(apart[0], k)     # keep an odd constant with the first factor
            k = 1
        rest = P.pscale(rest, k)
        for p in apart: out = self.red(rmul(out, self.sqrt_atom(p)))
        if P.isconst(rest) and P.cval(rest) == 1: return self.red(out)
        return self.red(rmul(out, self.sqrt_atom(rest)))

    def sqrt_atom(self, rest):
        k = ('sqrt', P.key(rest))
        if k in self.idx: g = self.idx[k]
        else:
            try: t = fn('sqrt', self.poly_term(rest))
            except NotPoly: t = None
            g = self.newgen('sqrt', t, True)
            self.idx[k] = g
            self.rules[g] = (2, Rat(rest))
            self.facts.append(self.zv[g] * self.zv[g] == self.zp(rest))
            self.signs[P.key(P.gen(g))] = 1
        return Rat(P.gen(g))

    def sqrt_gen_square(self, p): return False

    def powinv(self, p, q):
        """1/|p|^q for a denominator factor p (nonzero)"""
        a = Rat(p)
        if q % 2: a = self.absval(a)
        r = rconst(1)
        ai = rinv(self.red(a))
        for _ in range(q): r = rmul(r, ai)
        return r

    def absval(self, r):
        s = self.sign(r)
        if s is None: raise NeedSplit(fcmp_lt(self.poly_term(r.n), fc(0)))
        return r if s >= 0 else rneg(r)

    def sign(self, r):
        """1: provably >= 0, -1: provably <= 0, None"""
        if r.d: raise NotPoly('sign of quotient')
        p = r.n
        if not p: return 1
        if P.isconst(p): return 1 if P.cval(p) > 0 else -1
        k = P.key(p)
        if k in self.signs: return self.signs[k]
        kn = P.key(P.pneg(p))
        if kn in self.signs: return -self.signs[kn]
        s = self.sign_syn(p)
        if s is None:
            for op, q in self.known:
                c = prop(p, q)
                if c is None: continue
                # q op 0 with op in '<','<='
                s = -1 if c > 0 else 1
                break
        if s is None:
            try:
                if self.zproves(self.zp(p) >= 0, 1500): s = 1
                elif self.zproves(self.zp(p) <= 0, 1500): s = -1
            except NotPoly: pass
        if s is not None: self.signs[k] = s
        return s

    def sign_syn(self, p):
        ss = set()
        for m, c in p.items():
            ok = all(P.exp_of(m, i) % 2 == 0 or i in self.nonneg for i in P.gens_of({m: 1}))
            if not ok: return None
            ss.add(c > 0)
        return None if len(ss) > 1 else (1 if ss.pop() else -1)

    # -------------------------------------------------------- hypotheses
    def assume_eq(self, c):
        try:
            r = self.red(radd(self.rat(c.args[0]), rneg(self.rat(c.args[1]))))
        except NotPoly:
            return
        n = r.n
        if not n: return
        if P.isconst(n):
            self.inconsistent = True
            return
        self.hyps.append(self.zp(n) == 0)
        self.linh.append(('=', n))
        if self.noelim: return
        best = None
        for g in P.gens_of(n):
            if g in self.rules: continue
            k = max(P.exp_of(m, g) for m in n)
            lead = [(m, cc) for m, cc in n.items() if P.exp_of(m, g) == k]
            if len(lead) == 1 and lead[0][0] == k << (P.W * g):
                # the rule must not mention generators created later that themselves depend on g: variables only or the highest generator
                cand = (0 if k == 1 else 1, -g, g, k, lead[0][1])
                if best is None or cand < best: best = cand
        if best is None: return
        _, _, g, k, cc = best
        rest = {m: v for m, v in n.items() if m != k << (P.W * g)}
        self.rules[g] = (k, Rat(P.pscale(P.pneg(rest), Fraction(1) / cc)))
        # make the rule set triangular: reduce rule right hand sides
        if any(g in P.gens_of(rr.n) for gg, (kk, rr) in self.rules.items() if gg != g):
            for gg in list(self.rules):
                kk, rr = self.rules[gg]
                self.rules[gg] = (kk, self.red(rr))
        self.memo = {}

    def assume(self, c):
        neg_ = False
        if c.op == 'not': c, neg_ = c.args[0], True
        if c.op in ('flt', 'fle'):
            try: r = self.red(radd(self.rat(c.args[0]), rneg(self.rat(c.args[1]))))
            except NotPoly: return
            n = self.signed_num(r)
            if neg_: n, op = P.pneg(n), ('<=' if c.op == 'flt' else '<')
            else: op = '<' if c.op == 'flt' else '<='
            if P.isconst(n):
                v = P.cval(n)
                if not (v < 0 if op == '<' else v <= 0): self.inconsistent = True
                return
            self.known.append((op, n))
            self.linh.append((op, n))
            if len(n) == 1:
                (m, cc), = n.items()
                gs = P.gens_of({m: 1})
                if len(gs) == 1 and P.exp_of(m, gs[0]) == 1 and cc < 0: self.nonneg.add(gs[0])
            try: self.hyps.append(self.zp(n) < 0 if op == '<' else self.zp(n) <= 0)
            except NotPoly: pass
            return
        if c.op == 'feq' and neg_:
            try:
                r = self.red(radd(self.rat(c.args[0]), rneg(self.rat(c.args[1]))))
                self.known.append(('!=', r.n))
                if not r.n: self.inconsistent = True
                self.hyps.append(self.zp(r.n) != 0)
            except NotPoly: pass
            return
        if c is FALSE: self.inconsistent = True
        if c.op in ('c', 'v'): return
        if neg_ and c.op == 'and' and all(a.op == 'feq' for a in c.args):
            # not all of these differences are zero: the sum of their squares is positive
            try:
                n = {}
                for a in c.args:
                    r = radd(self.rat(a.args[0]), rneg(self.rat(a.args[1])))
                    if r.d: raise NotPoly('denominator')
                    n = P.padd(n, P.pmul(r.n, r.n))
                r = self.red(Rat(n))
                if not r.d:
                    if not r.n: self.inconsistent = True
                    self.known.append(('<', P.pneg(r.n)))
                    self.linh.append(('<', P.pneg(r.n)))
                    self.signs[P.key(r.n)] = 1
                    self.hyps.append(self.zp(r.n) > 0)
            except (NotPoly, NeedSplit): pass
        try: self.hyps.append(self.zbool(NOT(c) if neg_ else c))
        except (NotPoly, NeedSplit): pass

    def signed_num(self, r):
        """polynomial with the sign of r (denominators nonzero)"""
        n = r.n
        for p, e in r.d.values():
            if e % 2:
                s = None
                if len(p) == 1:
                    s = self.sign_syn(p)
                if s is None: s = self.signs.get(P.key(p)) or self.sign_syn(p)
                if s == 1: continue
                n = P.pneg(n) if s == -1 else P.pmul(n, p)
        return self.red(Rat(n)).n if not self.red(Rat(n)).d else n

    # -------------------------------------------------------- z3
    def zpi(self):
        if self.pi is None:
            self.pi = z3.Real('pi')
            self.facts += [self.pi > z3.Q(PI_LO.numerator, PI_LO.denominator), self.pi < z3.Q(PI_HI.numerator, PI_HI.denominator)]
        return self.pi

    def zp(self, p):
        if len(p) > 1500: raise NotPoly('too large for z3')
        s = []
        for m, c in p.items():
            f = Fraction(c)
            e = [z3.Q(f.numerator, f.denominator)] if f != 1 or m == 0 else []
            for i in P.gens_of({m: 1}): e += [self.zv[i]] * P.exp_of(m, i)
            s.append(e[0] if len(e) == 1 else z3.Product(e))
        if not s: return z3.RealVal(0)
        return s[0] if len(s) == 1 else z3.Sum(s)

    def z(self, r):
        if not r.d: return self.zp(r.n)
        return self.zp(r.n) / self.zp(r.den())

    def zbool(self, t):
        op = t.op
        if t is TRUE: return z3.BoolVal(True)
        if t is FALSE: return z3.BoolVal(False)
        if op == 'not': return z3.Not(self.zbool(t.args[0]))
        if op == 'and': return z3.And(*[self.zbool(a) for a in t.args])
        if op == 'ite': return z3.If(*[self.zbool(a) for a in t.args])
        if op in ('flt', 'fle', 'feq'):
            r = self.red(radd(self.rat(t.args[0]), rneg(self.rat(t.args[1]))))
            if op == 'feq': return self.zp(r.n) == 0
            n = self.signed_num(r)
            if P.isconst(n): return z3.BoolVal(P.cval(n) < 0 if op == 'flt' else P.cval(n) <= 0)
            return self.zp(n) < 0 if op == 'flt' else self.zp(n) <= 0
        return z3.Bool('b%d' % t.id)

    def lin_poly(self, p, memo, pos=()):
        s = []
        for m, c in p.items():
            f = Fraction(c)
            q = z3.Q(f.numerator, f.denominator)
            if m == 0:
                s.append(q)
                continue
            v = memo.get(m)
            if v is None: v = memo[m] = z3.Real('m%x' % m)
            s.append(v if f == 1 else q * v)
        return z3.RealVal(0) if not s else s[0] if len(s) == 1 else z3.Sum(s)

    def lin_bool(self, t, memo):
        op = t.op
        if t is TRUE: return z3.BoolVal(True)
        if t is FALSE: return z3.BoolVal(False)
        if op == 'not': return z3.Not(self.lin_bool(t.args[0], memo))
        if op == 'and': return z3.And(*[self.lin_bool(a, memo) for a in t.args])
        if op in ('flt', 'fle', 'feq'):
            r = self.red(radd(self.rat(t.args[0]), rneg(self.rat(t.args[1]))))
            if op == 'feq': return self.lin_poly(r.n, memo) == 0
            x = self.lin_poly(self.signed_num(r), memo)
            return x < 0 if op == 'flt' else x <= 0
        return z3.Bool('b%d' % t.id)

    def lin_proves(self, mk_, to=1500, strict=()):
        """mk_(memo) -> z3 formula over monomial variables; monomials of even or non-negative generators are >= 0"""
        t0 = time.time()
        s = z3.SolverFor('QF_LRA')
        s.set('timeout', to)
        memo = {}
        try: g = mk_(memo)
        except (NotPoly, NeedSplit): return False
        for op, n in self.linh:
            if len(n) > 400: continue
            x = self.lin_poly(n, memo)
            s.add(x == 0 if op == '=' else x < 0 if op == '<' else x <= 0)
        for m, v in memo.items():
            gs = P.gens_of({m: 1})
            if all(P.exp_of(m, i) % 2 == 0 or i in self.nonneg for i in gs):
                s.add(v > 0 if gs and all(i in strict for i in gs) else v >= 0)
        s.add(z3.Not(g))
        ok = s.check() == z3.unsat
        if ok: note('z3-lra', time.time() - t0)
        return ok

    def solver(self, to):
        s = z3.Solver()
        if self.deadline: to = int(max(50, min(to, (self.deadline - time.time()) * 1000)))
        s.set('timeout', to)
        for h in self.hyps: s.add(h)
        for f in self.facts: s.add(f)
        return s

    def zproves(self, g, to=2000):
        t0 = time.time()
        # light attempt without the atom facts first
        for full in ((False, True) if self.facts else (True,)):
            s = z3.Solver()
            s.set('timeout', int(to))
            for h in self.hyps: s.add(h)
            if full:
                for f in self.facts: s.add(f)
            s.add(z3.Not(g))
            if s.check() == z3.unsat:
                note('z3-nra', time.time() - t0)
                return True
        stats.setdefault('undischarged-time', [0, 0.0])[1] += time.time() - t0
        return False

    def infeasible(self, to=700):
        if self.inconsistent: return True
        t0 = time.time()
        s = self.solver(to)
        r = s.check()
        if r == z3.unsat:
            note('z3-nra', time.time() - t0)
            return True
        return False

    def model(self, extra=None, to=3000):
        """concrete rational-ish values for the variables of this leaf"""
        s = self.solver(to)
        if extra is not None: s.add(extra)
        if s.check() != z3.sat: return None
        m = s.model()
        env = {}
        for i, (k, t) in enumerate(self.gens):
            if k != 'v': continue
            v = m.eval(self.zv[i], model_completion=True)
            try:
                if z3.is_rational_value(v): env[t] = Fraction(v.numerator_as_long(), v.denominator_as_long())
                else:
                    a = v.approx(20)
                    env[t] = Fraction(a.numerator_as_long(), a.denominator_as_long())
            except Exception: return None
        return env


def mkreal(c, sort='f'):
    c = Fraction(c)
    t = fc(float(c)) if sort == 'f' else dc(float(c))
    if frac(t) == c: return t
    return mk('real', (c,), sort)


def tosort(t, s):
    return t if t.sort == s else mk('fpext' if s == 'd' else 'fptrunc', (t,), s)


def fgcd(a, b):
    a, b = Fraction(a), Fraction(b)
    n = gcd(a.numerator * b.denominator, b.numerator * a.denominator)
    return Fraction(n, a.denominator * b.denominator)


def isqrt_part(n):
    """n = a^2 * b for the largest easily found a"""
    from math import isqrt
    a, b = 1, n
    r = isqrt(b)
    if r * r == b: return r, 1
    p = 2
    while p * p <= b and p < 2000:
        while b % (p * p) == 0:
            b //= p * p
            a *= p
        p += 1
    r = isqrt(b)
    if r * r == b: return a * r, 1
    return a, b


def prop(p, q):
    """p = c*q"""
    if set(p) != set(q): return None
    k = next(iter(p))
    c = Fraction(p[k]) / q[k]
    return c if all(p[m] == c * q[m] for m in p) else None


# ------------------------------------------------------------------ the prover
class Result:
    __slots__ = ('status', 'env', 'note', 'leaves')

    def __init__(self, status, env=None, note='', leaves=0):
        self.status, self.env, self.note, self.leaves = status, env, note, leaves


class RProver:
    def __init__(self, hyps, timeout=60, maxleaves=600, ztime=4000, tol=1e-6, defined=True, noelim=False, until=None):
        self.noelim, self.until = noelim, until
        self.hyps = prep(list(hyps))
        self.timeout, self.maxleaves, self.ztime, self.tol = timeout, maxleaves, ztime, tol
        self.defined = defined
        self.lincache = {}

    def prove(self, kind, lhs, rhs=None):
        """kind 'real': lhs (code) = rhs (spec) wherever rhs is defined, and lhs defined there; 'rtrue': lhs holds"""
        self.deadline = time.time() + self.timeout
        if self.until: self.deadline = min(self.deadline, max(self.until, time.time() + 3))
        ts = prep([lhs] + ([rhs] if rhs is not None else []))
        self.kind = kind
        self.leaves = 0
        self.fail = None
        self.cands = []
        t0 = time.time()
        z0 = stats.get('z3-nra', [0, 0])[1]
        try:
            st = self.split(ts, [], 0)
        except (OutOfTime, P.TooBig) as e:
            st, self.fail = 'unknown', type(e).__name__
        except RecursionError:
            st, self.fail = 'unknown', 'recursion'
        if st == 'proved': note('ring-normaliser', max(0.0, time.time() - t0 - (stats.get('z3-nra', [0, 0])[1] - z0)))
        return Result(st, self.cands, self.fail or '', self.leaves)

    def split(self, ts, asm, depth):
        if time.time() > self.deadline: raise OutOfTime()
        hyps = self.hyps
        # the first atom whose arguments are ite free
        for a in cond_atoms(ts + hyps):
            if not any(has_ite(x) for x in a.args if isinstance(x, T)):
                return self.branch(ts, asm, a, depth)
        if self.kind == 'rtrue' and any(has_ite(t) for t in ts): pass
        ctx = None
        try:
            ctx = Ctx(hyps + asm, ts, self.deadline, self.tol, self.noelim)
            if ctx.inconsistent: return 'proved'
            return self.leaf(ctx, ts, asm)
        except NeedSplit as e:
            return self.branch(ts, asm, e.cond, depth)

    def branch(self, ts, asm, cond, depth):
        if depth > 60: raise OutOfTime()
        hy = self.hyps
        res = 'proved'
        for pol in (True, False):
            c = cond if pol else NOT(cond)
            nts = subst(ts, {cond: boolc(pol)})
            nh = subst(hy, {cond: boolc(pol)})
            if FALSE in nh: continue
            asm2 = asm + [c]
            # prune
            try:
                cx = Ctx([h for h in nh if not has_ite(h)] + asm2, (), self.deadline, self.tol, self.noelim)
                if cx.infeasible(): continue
            except (NeedSplit, NotPoly): pass
            self.hyps = nh
            try:
                r = self.split(nts, asm2, depth + 1)
            finally:
                self.hyps = hy
            if r != 'proved':
                res = r
                if res == 'unknown' and len(self.cands) > 6: return res
        return res

    def leaf(self, ctx, ts, asm):
        self.leaves += 1
        if self.leaves > self.maxleaves: raise OutOfTime()
        if self.kind == 'rtrue':
            try:
                g = ctx.zbool(ts[0])
                if self.defined and not self.defd(ctx, [ts[0]], [], asm):
                    self.note_fail(ctx, asm, 'definedness')
                    return 'unknown'
            except NotPoly as e:
                self.note_fail(ctx, asm, str(e))
                return 'unknown'
            if z3.is_true(z3.simplify(g)): return 'proved'
            st = self.strict(ctx)
            if ctx.lin_proves(lambda memo: ctx.lin_bool(ts[0], memo), strict=st): return 'proved'
            try:
                if all(self.factored(ctx, a, st) for a in (ts[0].args if ts[0].op == 'and' else (ts[0],))): return 'proved'
            except NotPoly: pass
            if ctx.zproves(g, self.ztime): return 'proved'
            m = ctx.model(z3.Not(g))
            if m is not None: self.cands.append(m)
            self.note_fail(ctx, asm, 'z3 did not prove the inequality')
            return 'unknown'
        lhs, rhs = ts
        try:
            if lhs is not rhs:
                b = ctx.rat(rhs)
                a = ctx.rat(lhs)
                d = ctx.red(radd(a, rneg(b)))
                if d.n and not self.small(d, a, b):
                    ok = bool(ctx.linh) and len(d.n) < 400 and ctx.lin_proves(lambda memo: ctx.lin_poly(d.n, memo) == 0)
                    try: ok = ok or ctx.zproves(ctx.zp(d.n) == 0, self.ztime)
                    except NotPoly: ok = False
                    if not ok:
                        try:
                            m = ctx.model(ctx.zp(d.n) != 0)
                            if m is not None: self.cands.append(m)
                        except NotPoly: pass
                        self.note_fail(ctx, asm, 'normal forms differ')
                        return 'unknown'
            if self.defined and not self.defd(ctx, [lhs], [rhs], asm):
                self.note_fail(ctx, asm, 'definedness')
                return 'unknown'
        except NotPoly as e:
            self.note_fail(ctx, asm, str(e))
            return 'unknown'
        return 'proved'

    def note_fail(self, ctx, asm, why):
        if self.fail is None: self.fail = '%s; case: %s' % (why, '; '.join(show(a, 6) for a in asm)[:400])
        if not self.cands:
            m = ctx.model()
            if m is not None: self.cands.append(m)

    def small(self, d, a, b):
        """difference is only coefficient rounding (constants such as pi/180 rounded to float)"""
        if not self.tol: return False
        if a.d != b.d: 
            x = P.pmul(a.n, b.den())
            y = P.pmul(b.n, a.den())
        else: x, y = a.n, b.n
        if set(x) != set(y): return False
        return all(abs(x[k] - y[k]) <= self.tol * max(abs(x[k]), abs(y[k])) for k in x)

    def defd(self, ctx, code, spec, asm=()):
        """every division, root and inverse function of the code is defined (assuming the specification's are)"""
        good = []
        for x in subterms(spec):
            if x.op == 'fdiv': good.append(ctx.red(ctx.rat(x.args[1])))
        goodp = []
        for g in good:
            for p, e in P.factors(g.n)[1]: goodp.append(p)
        for op, p in ctx.known:
            if op in ('<', '!='): goodp.append(p)
        specfn = set(x for x in subterms(spec) if x.op == 'fn')
        for x in subterms(code):
            if x.op == 'fdiv':
                if self.lin_nonzero(asm, x.args[1], ctx): continue
                r = ctx.red(ctx.rat(x.args[1]))
                if not r.n: return False
                if not self.nonzero(ctx, r.n, goodp): 
                    self.fail = 'division by %s not shown nonzero' % show(x.args[1], 5)
                    return False
            elif x.op == 'fn' and x not in specfn:
                n = x.args[0]
                if n in ('sqrt', 'log', 'log2', 'acos', 'asin', 'acosh', 'atanh'):
                    if n == 'sqrt' and (self.sos(x.args[1]) or self.lin_proves(asm, x.args[1], '>=', ctx)): continue
                    if n in ('acos', 'asin') and x.args[1].sort == 'f' and self.lin_proves(asm, fadd(fc(1), fneg(x.args[1])), '>=', ctx) and self.lin_proves(asm, fadd(x.args[1], fc(1)), '>=', ctx): continue
                    a = ctx.red(ctx.rat(x.args[1]))
                    if n == 'sqrt':
                        s = ctx.signed_num(a)
                        if not s or ctx.sign(Rat(s)) == 1: continue
                        if any(y.op == 'fn' and y.args[0] == 'sqrt' and ctx.red(radd(ctx.rat(y.args[1]), rneg(a))).n == {} for y in specfn): continue
                        self.fail = 'sqrt argument %s not shown >= 0' % show(x.args[1], 5)
                        return False
                    if any(y.args[0] == n and ctx.red(radd(ctx.rat(y.args[1]), rneg(a))).n == {} for y in specfn): continue
                    try: z = ctx.z(a)
                    except NotPoly: return False
                    g = {'log': z > 0, 'log2': z > 0, 'acos': z3.And(z <= 1, z >= -1), 'asin': z3.And(z <= 1, z >= -1), 'acosh': z >= 1, 'atanh': z3.And(z < 1, z > -1)}[n]
                    if not ctx.zproves(g, self.ztime):
                        self.fail = '%s argument %s not shown in its domain' % (n, show(x.args[1], 5))
                        return False
        return True

    # linear consequences of the branch conditions, every non-linear subterm taken as an atom
    def lin(self, t, memo):
        r = memo.get(t)
        if r is not None: return r
        op = t.op
        if op == 'c': 
            f = frac(t)
            if f is None: raise NotPoly('constant')
            r = z3.Q(f.numerator, f.denominator)
        elif op == 'real': r = z3.Q(t.args[0].numerator, t.args[0].denominator)
        elif op == 'fneg': r = -self.lin(t.args[0], memo)
        elif op in ('fpext', 'fptrunc'): r = self.lin(t.args[0], memo)
        elif op == 'fadd': r = self.lin(t.args[0], memo) + self.lin(t.args[1], memo)
        elif op == 'fmul' and any(a.op == 'c' and frac(a) is not None for a in t.args): r = self.lin(t.args[0], memo) * self.lin(t.args[1], memo)
        else: r = z3.Real('t%d' % t.id)
        memo[t] = r
        return r

    def sos(self, t):
        """syntactically a sum of squares / products of such"""
        if t.op == 'c': return frac(t) is not None and frac(t) >= 0
        if t.op == 'fmul': return t.args[0] is t.args[1] or (self.sos(t.args[0]) and self.sos(t.args[1]))
        if t.op == 'fadd': return self.sos(t.args[0]) and self.sos(t.args[1])
        if t.op == 'fdiv': return self.sos(t.args[0]) and self.sos(t.args[1])
        if t.op in ('fpext', 'fptrunc'): return self.sos(t.args[0])
        return t.op == 'fn' and t.args[0] == 'sqrt'

    def positive(self, asm, t, ctx):
        """t > 0, for a term that is syntactically non-negative"""
        if t.op == 'c': return frac(t) is not None and frac(t) > 0
        if t.op == 'fmul':
            if t.args[0] is t.args[1]: return self.lin_nonzero(asm, t.args[0], ctx)
            return all(self.sos(a) and self.positive(asm, a, ctx) for a in t.args)
        if t.op == 'fn' and t.args[0] == 'sqrt': return self.sos(t.args[1]) and self.positive(asm, t.args[1], ctx) or self.lin_proves(asm, t.args[1], '>', ctx)
        if t.op == 'fadd' and self.sos(t) and any(self.positive(asm, a, ctx) for a in t.args): return True
        if ctx is None: return False
        if len(list(subterms([t]))) > 200: return False
        key = ('pos', t)
        c = self.lincache.get(key)
        if c is None or c[0] is not ctx:
            self.lincache[key] = (ctx, False)
            try:
                r = ctx.red(ctx.rat(t))
                ok = len(r.n) <= 60 and bool(r.n) and self.sos(t) and self.nonzero(ctx, r.n, [p for op, p in ctx.known if op in ('<', '!=')])
            except (NotPoly, NeedSplit): ok = False
            self.lincache[key] = c = (ctx, ok)
        return c[1]

    def factored(self, ctx, t, st):
        """non-strict inequality t: divide the polynomial by its non-negative factors, then the linear abstraction"""
        neg_ = t.op == 'not'
        a = t.args[0] if neg_ else t
        if a.op != ('flt' if neg_ else 'fle'): return False
        r = ctx.red(radd(ctx.rat(a.args[0]), rneg(ctx.rat(a.args[1]))))
        n = ctx.signed_num(r)
        if neg_: n = P.pneg(n)
        if not n: return True
        if len(n) > 400: return False
        try: c, fs = P.sqfactor(n)
        except Exception: return False
        rest = P.const(1 if c > 0 else -1)
        for p, e in fs:
            if e % 2 == 0 or ctx.sign_syn(p) == 1: continue
            if ctx.lin_proves(lambda memo: ctx.lin_poly(p, memo) >= 0, strict=st): continue
            rest = P.pmul(rest, p)
        return ctx.lin_proves(lambda memo: ctx.lin_poly(rest, memo) <= 0, strict=st)

    def strict(self, ctx):
        """sqrt generators known to be nonzero"""
        out = set()
        goodp = [p for op, p in ctx.known if op in ('<', '!=')]
        for g, (k, t) in enumerate(ctx.gens):
            if k == 'sqrt' and g in ctx.rules and len(ctx.rules[g][1].n) <= 60 and not ctx.rules[g][1].d:
                if self.nonzero(ctx, ctx.rules[g][1].n, goodp, 500): out.add(g)
        return out

    def lin_proves(self, asm, t, rel, ctx=None):
        key = (id(asm), len(asm), t, rel)
        c = self.lincache.get(key)
        if c is not None and c[0] is asm: return c[1]
        self.lincache[key] = (asm, False)
        t0 = time.time()
        s = z3.SolverFor('QF_LRA')
        s.set('timeout', 1000)
        memo = {}
        ok = False
        try:
            for h in list(self.hyps) + list(asm):
                n = h.op == 'not'
                a = h.args[0] if n else h
                if a.op not in ('flt', 'fle', 'feq') or has_ite(a): continue
                if a.op == 'feq' and n: continue
                try: x, y = self.lin(a.args[0], memo), self.lin(a.args[1], memo)
                except NotPoly: continue
                f = x < y if a.op == 'flt' else x <= y if a.op == 'fle' else x == y
                s.add(z3.Not(f) if n else f)
            x = self.lin(t, memo)
            for a, v in list(memo.items()):
                if a.op == 'fn' and a.args[0] == 'sqrt': s.add(v >= 0)
            s.add(z3.Not(x > 0 if rel == '>' else x < 0 if rel == '<' else x >= 0))
            ok = s.check() == z3.unsat
            if not ok and ctx is not None:
                more = [v for a, v in list(memo.items()) if a.op == 'fn' and a.args[0] == 'sqrt' and a is not t and self.positive(asm, a, ctx)]
                if more:
                    for v in more: s.add(v > 0)
                    ok = s.check() == z3.unsat
        except NotPoly: pass
        if ok: note('z3-lra', time.time() - t0)
        self.lincache[key] = (asm, ok)
        return ok

    def lin_nonzero(self, asm, t, ctx=None):
        if t.op == 'c': return bool(frac(t))
        if t.op == 'fmul': return all(self.lin_nonzero(asm, a, ctx) for a in t.args)
        if t.op == 'fneg': return self.lin_nonzero(asm, t.args[0], ctx)
        if t.op == 'fn' and t.args[0] == 'sqrt': return self.positive(asm, t, ctx)
        if not asm and not self.hyps: return False
        if t.op == 'fn' and t.args[0] == 'sin' and t.args[1].op == 'fn' and t.args[1].args[0] == 'acos':
            c = t.args[1].args[1]
            if self.lin_proves(asm, fadd(c, fc(-1)) if c.sort == 'f' else c, '<', ctx) and self.lin_proves(asm, fadd(c, fc(1)) if c.sort == 'f' else c, '>', ctx): return True
        return self.lin_proves(asm, t, '>', ctx) or self.lin_proves(asm, t, '<', ctx)

    def nonzero(self, ctx, n, goodp, zt=None):
        if P.isconst(n): return bool(n)
        c, fs = P.factors(n)
        for p, e in fs:
            if any(prop(p, q) is not None for q in goodp): continue
            # a square root of something known nonzero
            gs = P.gens_of(p)
            if len(p) == 1 and len(gs) == 1 and gs[0] in ctx.rules and ctx.gens[gs[0]][0] == 'sqrt':
                rr = ctx.rules[gs[0]][1]
                if self.nonzero(ctx, rr.n, goodp): continue
            # exact divisors of a known nonzero polynomial
            if any(P.divexact(q, p) is not None for q in goodp if len(q) < 3000): continue
            try:
                extra = [ctx.zp(q) != 0 for q in goodp if len(q) < 200]
                if ctx.zproves(z3.Implies(z3.And(*extra), ctx.zp(p) != 0) if extra else ctx.zp(p) != 0, zt or self.ztime):
                    ctx.known.append(('!=', p))
                    continue
            except NotPoly: pass
            # sum-of-squares multiples: factor fully
            if e and len(p) <= 400:
                try:
                    _, ff = P.sqfactor(p)
                    if len(ff) > 1 and all(self.nonzero(ctx, f, goodp) for f, _ in ff): continue
                except Exception: pass
            return False
        return True
