"""Contracts: requires / ensures / frame for a public function, stated over the term language."""
import re
from .terms import *
from .execir import *
from .execir import _ids

# name: (C++ type, scalar kind, count).   kinds: f float, i int32, u uint32, B bool, q 64-bit unsigned
TYPES = {
    'float': ('float', 'f', 1), 'int': ('int', 'i', 1), 'uint': ('unsigned', 'u', 1), 'bool': ('bool', 'B', 1), 'size_t': ('size_t', 'q', 1),
    'quat': ('zcm::quat', 'f', 4), 'mat2': ('zcm::mat2', 'f', 4), 'mat3': ('zcm::mat3', 'f', 9), 'mat4': ('zcm::mat4', 'f', 16),
}
for n in (2, 3, 4):
    TYPES['vec%d' % n] = ('zcm::vec%d' % n, 'f', n)
    TYPES['ivec%d' % n] = ('zcm::ivec%d' % n, 'i', n)
    TYPES['bvec%d' % n] = ('zcm::bvec%d' % n, 'B', n)
KS = {'f': 4, 'i': 4, 'u': 4, 'B': 1, 'q': 8}
KSORT = {'f': 'f', 'i': 32, 'u': 32, 'B': 'b', 'q': 64}


class Param:
    __slots__ = ('name', 'type', 'mode', 'cxx', 'kind', 'count', 'ptr')

    def __init__(self, spec):
        """name:type[*N][&]   & = in-out reference, ! = out only;  float*4 = pointer to 4 floats"""
        self.name, t = [x.strip() for x in spec.split(':')]
        self.mode = 'in'
        if t[-1] == '&': self.mode, t = 'inout', t[:-1]
        elif t[-1] == '!': self.mode, t = 'out', t[:-1]
        m = re.match(r'(\w+)\*(\d+)$', t)
        self.ptr = bool(m)
        if m:
            self.type = m.group(1)
            self.cxx, self.kind, _ = TYPES[self.type]
            self.count = int(m.group(2))
        else:
            self.type = t
            self.cxx, self.kind, self.count = TYPES[t]

    @property
    def size(self): return self.count * KS[self.kind]


class V(list):
    """vector-like specification value: list of terms with element-wise helpers"""
    @property
    def x(self): return self[0]
    @property
    def y(self): return self[1]
    @property
    def z(self): return self[2]
    @property
    def w(self): return self[3]


class Goal:
    """one postcondition clause.
    kind 'same'  : lhs and rhs are the identical value (NaN equals NaN, zeros keep their sign)
    kind 'equal' : same, but +0 and -0 are interchangeable
    kind 'real'  : equal in the real interpretation
    kind 'true'  : boolean term, bit-exact interpretation
    kind 'rtrue' : boolean term, real interpretation
    """
    __slots__ = ('kind', 'lhs', 'rhs', 'name', 'hyps', 'scale', 'cuts')

    def __init__(self, kind, lhs, rhs=None, name='', hyps=(), scale=None, cuts=()):
        self.kind, self.lhs, self.rhs, self.name, self.hyps, self.scale, self.cuts = kind, lhs, rhs, name, tuple(hyps), scale, tuple(cuts)

    def terms(self): return [self.lhs] + ([self.rhs] if self.rhs is not None else []) + list(self.hyps)

    def text(self):
        if self.rhs is None: return show(self.lhs)
        return show(self.lhs) + {'same': ' is ', 'equal': ' == ', 'real': ' =R= '}.get(self.kind, ' = ') + show(self.rhs)


class Contract:
    def __init__(self, id, cxx, params='', ret=None, spec=None, ensures=None, requires=None, theory='FR', stmt=False, cases=None,
                 configs=('debug', 'release', 'noswizzle'), scalar_out=True, domain=None, sample=None, known=None, opts=None, tol=1e-4, arrange=None,
                 safety=True, undef_inout=False, real_hyps=None, derive=None):
        self.derive = derive       # consequences of requires, proved as a lemma before they are used (real arithmetic)
        self.id, self.cxx, self.stmt = id, cxx, stmt
        self.params = [Param(p) for p in params.split(',') if p.strip()]
        self.ret = Param('ret:' + ret) if ret else None
        self.spec, self.ensures, self.requires = spec, ensures, requires
        self.theory, self.cases, self.configs = theory, cases, configs
        self.sample = sample       # sampler of concrete inputs satisfying requires
        self.opts = opts or {}
        self.tol = tol
        self.safety = safety
        self.real_hyps = real_hyps
        self.fn = re.sub(r'\W', '_', id)

    # ---------------------------------------------------------------- harness
    def harness(self):
        ps, body = [], []
        for p in self.params:
            c = 'const ' if p.mode == 'in' else ''
            ps.append('%s%s* %s_' % (c, p.cxx, p.name))
            if p.ptr: body.append('%s%s* %s = %s_;' % (c, p.cxx, p.name, p.name))
            else: body.append('%s%s& %s = *%s_;' % (c, p.cxx, p.name, p.name))
        if self.ret: ps.append('%s* ret_' % self.ret.cxx)
        if self.stmt: body.append(self.cxx)
        elif self.ret: body.append('%s ret = %s; __builtin_memcpy((void*)ret_, (const void*)&ret, sizeof ret);' % (self.ret.cxx, self.cxx))
        else: body.append(self.cxx + ';')
        return 'extern "C" void H_%s(%s) { %s }' % (self.fn, ', '.join(ps), ' '.join(body))

    # ---------------------------------------------------------------- symbolic inputs
    def inputs(self, tag='', fixed=None):
        """{param: V of terms}"""
        ins = {}
        for p in self.params:
            if p.mode == 'out': continue
            vs = V()
            for i in range(p.count):
                nm = '%s%s' % (p.name, '' if p.count == 1 else '[%d]' % i) + tag
                if fixed and (p.name, i) in fixed: vs.append(fixed[(p.name, i)])
                else: vs.append(var(nm, KSORT[p.kind]))
            ins[p.name] = vs
        return ins

    def bind(self, ins):
        return [ins[p.name] if p.count > 1 or p.ptr else ins[p.name][0] for p in self.params if p.mode != 'out']

    def reqs(self, ins):
        if not self.requires: return []
        r = self.requires(*self.bind(ins))
        return [r] if isinstance(r, T) else list(r)

    def goals(self, ins, outs):
        """postcondition over inputs and outputs (outs: {name: V}; 'ret' and inout/out params)"""
        gs = []
        kind = {'F': 'same', 'Fl': 'equal', 'FR': 'auto', 'FlR': 'autol', 'R': 'real'}[self.theory]
        if self.spec:
            r = self.spec(*self.bind(ins))
            targets = [(('ret'), self.ret)] if self.ret else []
            targets += [(p.name, p) for p in self.params if p.mode != 'in']
            if not isinstance(r, dict):
                # a single result: the return value, or the single inout parameter
                assert len(targets) == 1, self.id
                r = {targets[0][0]: r}
            for nm, p in targets:
                if nm not in r:
                    raise Undecided('contract %s says nothing about %s' % (self.id, nm))
                val = r[nm]
                if val is None: continue
                vals = list(val) if isinstance(val, (list, tuple)) else [val]
                assert len(vals) == p.count, (self.id, nm, len(vals), p.count)
                for i, (o, s) in enumerate(zip(outs[nm], vals)):
                    s = lift(s, KSORT[p.kind])
                    k = kind if p.kind == 'f' else 'same'
                    gs.append(Goal(k, o, s, '%s%s' % (nm, '' if p.count == 1 else '[%d]' % i)))
        if self.ensures:
            args = self.bind(ins)
            extra = []
            if self.ret: extra.append(outs['ret'] if self.ret.count > 1 else outs['ret'][0])
            for p in self.params:
                if p.mode != 'in': extra.append(outs[p.name] if p.count > 1 else outs[p.name][0])
            for g in self.ensures(*args, *extra):
                gs.append(g if isinstance(g, Goal) else Goal('true', g))
        return gs


class VC:
    """result of symbolically executing a contract's harness"""
    pass


def conjuncts(t):
    if t is TRUE: return []
    if t.op == 'and' and t.sort == 'b': return [y for x in t.args for y in conjuncts(x)]
    return [t]


def enum_z3(t, pc):
    from . import fsolve
    return fsolve.enum_values(t, pc)


def execute(prog, c, ins, summaries=None):
    ex = Exec(prog)
    ex.enum_hook = enum_z3
    if summaries: ex.summaries = summaries
    f = prog.extern.get('@H_' + c.fn)
    if f is None: raise Undecided('harness missing ' + c.id)
    reqs = c.reqs(ins)
    st = State({}, AND(*reqs) if reqs else TRUE)
    args, objs = [], {}
    for p in c.params + ([c.ret] if c.ret else []):
        name = p.name
        kind = 'in' if p.mode == 'in' and p is not c.ret else 'inout'
        o = ex.newobj(st, p.size, kind, name)
        cells = {}
        if p.mode != 'out' and p is not c.ret:
            for i, v in enumerate(ins[name]):
                cells[i * KS[p.kind]] = (KS[p.kind], zext(v, 8) if p.kind == 'B' else v)
        st.mem[o].cells.update(cells)
        objs[name] = o
        args.append(ptr(o))
    r, st2 = ex.call(st, f.mod, f, args)
    vc = VC()
    vc.ex, vc.obls, vc.reqs, vc.ins = ex, ex.obls, list(reqs), ins
    pre = set(conjuncts(AND(*reqs))) if reqs else set()
    vc.assumed = []
    for pc, t in ex.assumed:
        path = [x for x in conjuncts(pc) if x not in pre]
        vc.assumed.append(IMP(AND(*path), t) if path else t)
    vc.reqs0 = list(reqs)
    vc.reqs += vc.assumed
    vc.returns = st2 is not None
    vc.pc = st2.pc if st2 is not None else FALSE
    outs = {}
    vc.wellformed = []
    if st2 is not None:
        for p in c.params + ([c.ret] if c.ret else []):
            if p.mode == 'in' and p is not c.ret: continue
            vs = V()
            ob = st2.mem[objs[p.name]]
            for i in range(p.count):
                k = KS[p.kind]
                raw = ex.read_bytes(ob, i * k, k, 'f' if p.kind == 'f' else 8 * k)
                if p.kind == 'B':
                    b = trunc(raw, 'b')
                    if zext(b, 8) is not raw: vc.wellformed.append(icmp('eq', zext(b, 8), raw))
                    raw = b
                vs.append(raw)
            outs[p.name] = vs
        # by-reference inputs are unchanged (frame)
        vc.frame = []
        for p in c.params:
            if p.mode != 'in': continue
            ob = st2.mem[objs[p.name]]
            for i, v in enumerate(ins[p.name]):
                k = KS[p.kind]
                raw = ex.read_bytes(ob, i * k, k, 'f' if p.kind == 'f' else 8 * k)
                vv = zext(v, 8) if p.kind == 'B' else v
                if raw is not vv: vc.frame.append((p.name, i, raw, vv))
    vc.outs = outs
    return vc
