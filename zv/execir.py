"""Verification-condition generator: symbolic execution of one function of the extracted IR.

Branches are executed on both sides and joined at the immediate post-dominator, so the result is one
term per output plus a list of obligations (path condition => condition).  There is no loop bound on
results: a loop whose exit condition does not become concrete raises Undecided.
"""
from .terms import *
from .ir import *

MAXVISIT = 70
_ids = [0]


class Ptr:
    __slots__ = ('alts',)

    def __init__(self, alts):
        self.alts = alts        # list of (cond, objid or None, off int)

    def key(self):
        return tuple((c.id, o, f) for c, o, f in self.alts)

    def __repr__(self):
        return 'Ptr' + repr([(str(c), o, f) for c, o, f in self.alts])


def ptr(o, off=0): return Ptr([(TRUE, o, off)])


NULL = ptr(None, 0)


class Agg:
    __slots__ = ('v',)

    def __init__(self, v): self.v = list(v)


class Obj:
    """memory object; cells: offset -> (size, value). value: T or Ptr"""
    __slots__ = ('size', 'cells', 'kind', 'name')

    def __init__(self, size, cells, kind, name):
        self.size, self.cells, self.kind, self.name = size, cells, kind, name


class State:
    __slots__ = ('mem', 'pc', 'env', 'prev', 'phidone', 'ret')

    def __init__(self, mem, pc):
        self.mem, self.pc, self.env = mem, pc, {}
        self.prev = None
        self.phidone = False
        self.ret = None

    def fork(self, c):
        s = State(dict(self.mem), AND(self.pc, c))
        s.env = dict(self.env)
        s.prev = self.prev
        s.phidone = self.phidone
        return s


class Obligation:
    __slots__ = ('kind', 'pc', 'cond', 'where', 'nassumed')

    def __init__(self, kind, pc, cond, where):
        self.nassumed = 0      # number of callee postconditions that hold at this point
        self.kind, self.pc, self.cond, self.where = kind, pc, cond, where

    def term(self): return IMP(self.pc, self.cond)


LIBM1 = {'sin', 'cos', 'tan', 'asin', 'acos', 'atan', 'sinh', 'cosh', 'tanh', 'asinh', 'acosh', 'atanh', 'exp', 'exp2', 'expm1', 'log', 'log2',
         'log10', 'log1p', 'sqrt', 'cbrt', 'floor', 'ceil', 'trunc', 'round', 'rint', 'nearbyint', 'fabs', 'erf', 'tgamma', 'lgamma', 'logb'}
LIBM2 = {'pow', 'atan2', 'fmod', 'fmin', 'fmax', 'copysign', 'hypot', 'remainder', 'fdim', 'nextafter'}
LIBM3 = {'fma'}
ARITY = {**{k: 1 for k in LIBM1}, **{k: 2 for k in LIBM2}, **{k: 3 for k in LIBM3}}
LLVMF = {'minnum': 'fmin', 'maxnum': 'fmax', 'fmuladd': 'muladd', 'roundeven': 'rint', 'nearbyint': 'rint'}
NOOPS = ('llvm.lifetime', 'llvm.dbg', 'llvm.assume', 'llvm.experimental.noalias', 'llvm.invariant', 'llvm.stacksave', 'llvm.stackrestore', 'llvm.donothing')


def cfn(name, *args):
    if name == 'nearbyint': name = 'rint'          # default rounding mode; the inexact flag is not modelled
    return fn(name, *args)


class Exec:
    def __init__(self, prog):
        self.prog = prog
        self.obls = []
        self.summaries = {}
        self.stats = {'calls_inlined': 0, 'calls_by_contract': 0}
        self.inlined = set()
        self.used_contracts = set()
        self.assumed = []      # postconditions of relational callee contracts
        self.libcalls = set()
        self.globals = {}
        self.undefs = 0
        self.steps = 0
        self.divs = []           # (pc, denominator) for the real interpretation
        self.domains = []        # (pc, fn name, args)
        self.enum_hook = None
        self.addrs = {}          # address variable -> object
        self.guarding = None     # the function-local static being initialised

    # ------------------------------------------------------------ helpers
    def obl(self, kind, st, cond, where):
        if cond is TRUE or st.pc is FALSE:
            self.obls.append(Obligation(kind, st.pc, TRUE, where))
            return
        self.obls.append(Obligation(kind, st.pc, cond, where))
        self.obls[-1].nassumed = len(self.assumed)

    def newobj(self, st, size, kind, name):
        _ids[0] += 1
        o = _ids[0]
        st.mem[o] = Obj(size, {}, kind, name)
        return o

    def undef(self, sort):
        self.undefs += 1
        return var('undef!%d' % self.undefs, sort)

    def undef_ty(self, mod, ty):
        ty = mod.res(ty)
        k = ty[0]
        if k == 'i': return self.undef('b' if ty[1] == 1 else ty[1])
        if k in ('f', 'd'): return self.undef(k)
        if k == 'p': return NULL
        if k in ('v', 'a'): return Agg([self.undef_ty(mod, ty[2]) for _ in range(ty[1])])
        if k == 's': return Agg([self.undef_ty(mod, e) for e in ty[1]])
        raise Undecided('undef of %s' % (ty,))

    def zero_ty(self, mod, ty):
        ty = mod.res(ty)
        k = ty[0]
        if k == 'i': return ic(0, 'b' if ty[1] == 1 else ty[1])
        if k in ('f', 'd'): return fbits(0, k)
        if k == 'p': return NULL
        if k in ('v', 'a'): return Agg([self.zero_ty(mod, ty[2]) for _ in range(ty[1])])
        if k == 's': return Agg([self.zero_ty(mod, e) for e in ty[1]])
        raise Undecided('zero of %s' % (ty,))

    def const(self, st, mod, ty, v):
        ty = mod.res(ty)
        k = v[0]
        if k == 'int': return ic(int(v[1]), 'b' if ty[1] == 1 else ty[1])
        if k == 'fbits': return fbits(v[1], ty[0])
        if k == 'undef': return self.undef_ty(mod, ty)
        if k == 'zero': return self.zero_ty(mod, ty)
        if k == 'null': return NULL
        if k == 'agg': return Agg([self.const(st, mod, t, x) for t, x in v[1]])
        if k == 'bytes': return Agg([ic(b, 8) for b in v[1]])
        if k == 'g': return self.gptr(st, mod, v[1])
        if k == 'cgep':
            return self.gep(st, mod, v[1], self.const(st, mod, ('p',), v[2]), [(t, self.const(st, mod, t, x)) for t, x in v[3]])
        raise Undecided('constant %s' % (v,))

    def val(self, st, mod, ty, v):
        if v[0] == 'l':
            r = st.env.get(v[1])
            if r is None: raise Undecided('unbound value ' + v[1])
            return r
        return self.const(st, mod, ty, v)

    def gptr(self, st, mod, nm):
        f = self.prog.lookup(mod, nm)
        if f is not None:
            return Ptr([(TRUE, ('fn', nm, mod.name), 0)])
        m = mod
        if nm not in mod.globals or not re.search(r'\b(constant|global)\b', mod.globals[nm]) or re.match(r'(external|extern_weak)', mod.globals[nm]):
            for m2 in self.prog.mods:
                if nm in m2.globals and not re.match(r'(external|extern_weak)', m2.globals[nm]):
                    m = m2
                    break
            else:
                if nm in mod.globals and not nm.startswith('@_ZT'): raise Undecided('external global ' + nm)
                return Ptr([(TRUE, ('fn', nm, mod.name), 0)])
        key = (m.name, nm)
        o = self.globals.get(key)
        if o is None:
            rest = m.globals[nm]
            toks = tokenize(rest)
            i = next(j for j, x in enumerate(toks) if x in ('constant', 'global'))
            isconst = toks[i] == 'constant'
            if 'thread_local' in toks[:i]: isconst = False
            elif not isconst and ('internal' in toks[:i] or 'private' in toks[:i]) and never_written(m, nm): isconst = True
            k = Toks(toks, m)
            k.i = i + 1
            ty = k.type()
            init = None
            if k.peek() is not None and k.peek() != ',':
                init = k.value(ty)
            _ids[0] += 1
            o = _ids[0]
            obj = Obj(m.size_align(ty)[0], {}, 'gconst' if isconst else 'gmut', nm)
            self.globals[key] = o
            self._ginit = getattr(self, '_ginit', {})
            self._ginit[o] = obj
            tmp = State({o: obj}, TRUE)
            if init is not None:
                v = self.const(tmp, m, ty, init)
                self.store_val(tmp, m, ty, v, ptr(o, 0), 'init', check=False)
                self._ginit.update({kk: vv for kk, vv in tmp.mem.items()})
            if obj.kind == 'gmut' and ('internal' in toks[:i] or 'private' in toks[:i]) and 'thread_local' not in toks[:i]:
                cells = self.dyninit(m, nm, self._ginit[o])
                if cells is not None: self._ginit[o] = Obj(obj.size, cells, 'gconst', nm)
        if o not in st.mem:
            st.mem[o] = self._ginit[o]
            if st.mem[o].kind == 'gmut' and not nm.startswith('@_ZGV'):
                # arbitrary current contents (another call may have changed it)
                st.mem[o] = Obj(st.mem[o].size, {}, 'gmut', nm)
        return ptr(o, 0)

    def dyninit(self, m, nm, ob):
        """contents of a namespace-scope object after dynamic initialisation, if nothing else in its translation unit
        can write it and the initialiser computes constants; else None"""
        inits = [n for n, f in m.funcs.items() if '__cxx_global_var_init' in n and any(word_in(nm, ln) for ln in f.body)]
        if len(inits) != 1 or not never_written(m, nm, inits): return None
        e = Exec(self.prog)
        _ids[0] += 1
        o = _ids[0]
        e.globals[(m.name, nm)] = o
        e._ginit = {o: Obj(ob.size, dict(ob.cells), 'inout', nm)}
        try: r, st = e.call(State({}, TRUE), m, m.funcs[inits[0]], [])
        except Undecided: return None
        if st is None or any(x.term() is not TRUE for x in e.obls): return None
        cells = st.mem[o].cells if o in st.mem else {}
        if any(isinstance(v, Ptr) or free_vars(v) for s, v in cells.values()): return None
        return cells

    # ------------------------------------------------------------ memory
    def getobj(self, st, o):
        if o in st.mem: return st.mem[o]
        if hasattr(self, '_ginit') and o in self._ginit:
            ob = self._ginit[o]
            st.mem[o] = ob if ob.kind != 'gmut' or ob.name.startswith('@_ZGV') else Obj(ob.size, {}, 'gmut', ob.name)
            return st.mem[o]
        raise Undecided('unknown object')

    def deref(self, st, p, size, what, where, write):
        """bounds / frame obligations; returns usable alternatives"""
        if not isinstance(p, Ptr): raise Undecided('dereference of non-pointer at ' + where)
        out = []
        for c, o, off in p.alts:
            if AND(st.pc, c) is FALSE: continue
            if o is None or isinstance(o, tuple):
                self.obl('mem-bounds', st, NOT(c), '%s: %s through null/invalid pointer' % (where, what))
                continue
            if o not in st.mem and o not in getattr(self, '_ginit', {}):
                self.obl('mem-bounds', st, NOT(c), '%s: %s through dangling pointer' % (where, what))
                continue
            ob = self.getobj(st, o)
            if off < 0 or off + size > ob.size:
                self.obl('mem-bounds', st, NOT(c), '%s: %s of %d bytes at offset %d of %d-byte object %s' % (where, what, size, off, ob.size, ob.name))
                continue
            if ob.name.startswith('@_ZGV') or self.guarding is not None and ob.kind == 'gmut' and '@_Z' + self.getobj(st, self.guarding).name[len('@_ZGV'):] == ob.name:
                out.append((c, o, off))       # the guard of a function-local static, or that static while it is being initialised
                continue
            if write and ob.kind in ('in', 'gconst', 'gmut'):
                self.obl('frame', st, NOT(c), '%s: write to %s, which is outside the function\'s frame' % (where, ob.name))
                if ob.kind == 'gconst': continue
            if not write and ob.kind == 'gmut':
                self.obl('frame', st, NOT(c), '%s: reads mutable global %s' % (where, ob.name))
            out.append((c, o, off))
        self.obls.append(Obligation('mem-bounds', st.pc, TRUE, where)) if out else None
        return out

    def read_bytes(self, ob, off, size, sort):
        """read integer/float scalar of `size` bytes as term of sort (int sort n=8*size, 'f','d')"""
        c = ob.cells.get(off)
        if c is not None and c[0] == size:
            v = c[1]
            if isinstance(v, Ptr):
                if sort == 'p': return v
                raise Undecided('pointer read as data')
            return conv(v, sort)
        if sort == 'p':
            raise Undecided('uninitialised pointer read')
        # gather pieces
        parts = []   # low to high
        i = off
        while i < off + size:
            c = ob.cells.get(i)
            if c is not None and i + c[0] <= off + size:
                if isinstance(c[1], Ptr): raise Undecided('pointer bytes')
                parts.append(asint(c[1], c[0]))
                i += c[0]
                continue
            # covered by an earlier, larger cell?
            hit = None
            for k in range(1, 16):
                c2 = ob.cells.get(i - k)
                if c2 is not None:
                    if i - k + c2[0] > i: hit = (i - k, c2)
                    break
            if hit is None and c is not None: hit = (i, c)
            if hit is None:
                parts.append(self.undef(8))
                i += 1
                continue
            b0, c2 = hit
            if isinstance(c2[1], Ptr): raise Undecided('pointer bytes')
            end = min(b0 + c2[0], off + size)
            parts.append(extract(asint(c2[1], c2[0]), (i - b0) * 8, (end - i) * 8))
            i = end
        r = parts[0]
        for x in parts[1:]: r = concat(x, r)
        return conv(r, sort)

    def write_cell(self, ob, off, size, v):
        cells = dict(ob.cells)
        # remove / split overlapping cells
        for o2 in [k for k in cells if k < off + size and k + cells[k][0] > off]:
            s2, v2 = cells.pop(o2)
            if o2 < off:
                cells[o2] = (off - o2, extract(asint(v2, s2), 0, (off - o2) * 8))
            if o2 + s2 > off + size:
                e = o2 + s2 - (off + size)
                cells[off + size] = (e, extract(asint(v2, s2), (off + size - o2) * 8, e * 8))
        # split concatenations into natural cells
        self._put(cells, off, size, v)
        return Obj(ob.size, cells, ob.kind, ob.name)

    def _put(self, cells, off, size, v):
        if isinstance(v, T) and v.op == 'concat' and v.args[1].sort % 8 == 0 and v.args[0].sort % 8 == 0:
            lo, hi = v.args[1], v.args[0]
            ls = lo.sort // 8
            self._put(cells, off, ls, lo)
            self._put(cells, off + ls, size - ls, hi)
            return
        if isinstance(v, T) and v.op == 'f2bits' and size in (4, 8): v = v.args[0]
        cells[off] = (size, v)

    def store_scalar(self, st, alts, size, v):
        for c, o, off in alts:
            ob = self.getobj(st, o)
            if c is not TRUE and not (len(alts) == 1):
                old = self.read_bytes(ob, off, size, v.sort if isinstance(v, T) and v.sort in ('f', 'd') else 'p' if isinstance(v, Ptr) else size * 8)
                st.mem[o] = self.write_cell(ob, off, size, merge(c, v, old))
            else:
                st.mem[o] = self.write_cell(ob, off, size, v)

    def load_val(self, st, mod, ty, p, where):
        size = mod.store_size(ty)
        alts = self.deref(st, p, size, 'read', where, False)
        if not alts: return self.undef_ty(mod, ty)
        r = None
        for c, o, off in reversed(alts):
            v = self._load(st, mod, mod.res(ty), self.getobj(st, o), off)
            r = v if r is None else merge(c, v, r)
        return r

    def _load(self, st, mod, ty, ob, off):
        k = ty[0]
        if k == 'i':
            nb = (ty[1] + 7) // 8
            v = self.read_bytes(ob, off, nb, nb * 8)
            return trunc(v, 'b' if ty[1] == 1 else ty[1])
        if k == 'f': return self.read_bytes(ob, off, 4, 'f')
        if k == 'd': return self.read_bytes(ob, off, 8, 'd')
        if k == 'p': return self.read_bytes(ob, off, 8, 'p')
        if k in ('v', 'a'):
            es = mod.size_align(ty[2])[0] if k == 'a' else mod.store_size(ty[2])
            return Agg([self._load(st, mod, mod.res(ty[2]), ob, off + i * es) for i in range(ty[1])])
        if k == 's':
            return Agg([self._load(st, mod, mod.res(e), ob, off + mod.field_offset(ty, i)) for i, e in enumerate(ty[1])])
        raise Undecided('load of %s' % (ty,))

    def store_val(self, st, mod, ty, v, p, where, check=True):
        ty = mod.res(ty)
        size = mod.store_size(ty)
        alts = self.deref(st, p, size, 'write', where, True) if check else p.alts
        if not alts: return
        self._store(st, mod, ty, v, alts, 0)

    def _store(self, st, mod, ty, v, alts, d):
        k = ty[0]
        if k == 'i':
            nb = (ty[1] + 7) // 8
            vv = zext(v, nb * 8)
            self.store_scalar(st, [(c, o, f + d) for c, o, f in alts], nb, vv)
        elif k in ('f', 'd', 'p'):
            self.store_scalar(st, [(c, o, f + d) for c, o, f in alts], {'f': 4, 'd': 8, 'p': 8}[k], v)
        elif k in ('v', 'a'):
            es = mod.size_align(ty[2])[0] if k == 'a' else mod.store_size(ty[2])
            for i in range(ty[1]): self._store(st, mod, mod.res(ty[2]), v.v[i], alts, d + i * es)
        elif k == 's':
            for i, e in enumerate(ty[1]): self._store(st, mod, mod.res(e), v.v[i], alts, d + mod.field_offset(ty, i))
        else: raise Undecided('store of %s' % (ty,))

    def memcpy(self, st, dst, src, n, where):
        if n == 0: return
        sa = self.deref(st, src, n, 'memcpy read', where, False)
        da = self.deref(st, dst, n, 'memcpy write', where, True)
        if not sa or not da: return
        if len(sa) == 1 and len(da) == 1:
            so, soff = self.getobj(st, sa[0][1]), sa[0][2]
            o, doff = da[0][1], da[0][2]
            ob = self.getobj(st, o)
            snap = []
            i = 0
            while i < n:
                c = so.cells.get(soff + i)
                if c is not None and i + c[0] <= n:
                    snap.append((i, c[0], c[1])); i += c[0]
                    continue
                cov = c is not None or any(so.cells.get(soff + i - k) is not None and so.cells[soff + i - k][0] > k for k in range(1, 16))
                if cov: snap.append((i, 1, self.read_bytes(so, soff + i, 1, 8)))
                else: snap.append((i, 1, None))
                i += 1
            for i, s, v in snap:
                if v is None:
                    ob = self.write_cell(ob, doff + i, 1, ic(0, 8))
                    cells = dict(ob.cells); del cells[doff + i]
                    ob = Obj(ob.size, cells, ob.kind, ob.name)
                else: ob = self.write_cell(ob, doff + i, s, v)
            st.mem[o] = ob
            return
        # general: 4-byte (or 1-byte) chunks through guarded load/store
        step = 4 if n % 4 == 0 and all(x[2] % 4 == 0 for x in sa + da) else 1
        vals = []
        for i in range(0, n, step):
            r = None
            for c, o, off in reversed(sa):
                v = self.read_bytes(self.getobj(st, o), off + i, step, step * 8)
                r = v if r is None else merge(c, v, r)
            vals.append(r)
        for j, i in enumerate(range(0, n, step)):
            self.store_scalar(st, [(c, o, f + i) for c, o, f in da], step, vals[j])

    def gep(self, st, mod, bt, p, idx, where=''):
        if not isinstance(p, Ptr): raise Undecided('gep on non pointer')
        offs = [(TRUE, 0)]
        ty = bt
        for j, (it, iv) in enumerate(idx):
            if j == 0:
                scale = mod.size_align(ty)[0]
            else:
                ty = mod.res(ty)
                if ty[0] == 's':
                    offs = [(c, o + mod.field_offset(ty, iv.args[0])) for c, o in offs]
                    ty = ty[1][iv.args[0]]
                    continue
                if ty[0] in ('a', 'v'):
                    ty = ty[2]
                    scale = mod.size_align(ty)[0]
                else: raise Undecided('gep into %s' % (ty,))
            vals = self.enum(st, iv, where)
            offs = [(AND(c, c2), o + v * scale) for c, o in offs for c2, v in vals if AND(c, c2) is not FALSE]
        return Ptr([(AND(c, c2), o, f + d) for c, o, f in p.alts for c2, d in offs if AND(c, c2) is not FALSE])

    def enum(self, st, t, where):
        """possible values of an index term: [(cond, signed int)]"""
        if t.op == 'c': return [(TRUE, sgn(t.args[0], t.sort))]
        vals = {}

        def walk(x, c):
            if c is FALSE: return True
            if x.op == 'c':
                k = sgn(x.args[0], x.sort)
                vals[k] = OR(vals.get(k, FALSE), c)
                return len(vals) <= 64
            if x.op == 'ite':
                return walk(x.args[1], AND(c, x.args[0])) and walk(x.args[2], AND(c, NOT(x.args[0])))
            return False
        if walk(t, TRUE): return [(c, v) for v, c in vals.items()]
        if self.enum_hook:
            r = self.enum_hook(t, st.pc)
            if r is not None: return [(icmp('eq', t, ic(v, t.sort)), v) for v in r]
        raise Undecided('symbolic index at ' + where)

    # ------------------------------------------------------------ calls
    def call(self, st, mod, f, args, depth=0):
        """f: Function; args: values. Returns (value, state) or (None, None) when no path returns"""
        f.parse()
        self.inlined.add(f.name)
        if depth > 60: raise Undecided('recursion depth in ' + f.name)
        saved_env, saved_prev = st.env, st.prev
        callee = State(st.mem, st.pc)
        for (ty, at, nm), v in zip(f.params, args):
            if 'byval' in at:
                ty2 = at['byval']
                size = f.mod.size_align(ty2)[0]
                o = self.newobj(callee, size, 'stack', f.name + ':' + nm)
                self.memcpy(callee, ptr(o), v, size, f.name + ' byval')
                v = ptr(o)
            callee.env[nm] = v
        first = _ids[0]
        out = self.run(f, f.entry, callee, '#exit', depth, {})
        if out is None: return None, None
        for o in [o for o, ob in out.mem.items() if o > first and ob.kind == 'stack']:
            del out.mem[o]          # automatic storage ends here: later accesses are violations
        ret = out.ret
        res = State(out.mem, out.pc)
        res.env, res.prev = saved_env, saved_prev
        return ret, res

    def arrive(self, f, b, st, prev):
        """evaluate the phis of b for predecessor prev"""
        st.prev = prev
        new = {}
        for ins in f.instrs(b):
            if ins.op != 'phi': break
            ty, inc = ins.a
            for v, pb in inc:
                if pb == prev:
                    new[ins.dst] = self.val(st, f.mod, ty, v)
                    break
            else: raise Undecided('phi without edge')
        st.env.update(new)
        st.phidone = True

    def run(self, f, b, st, stop, depth, visits):
        mod = f.mod
        while True:
            if b == stop: return st
            n = visits.get(b, 0) + 1
            if n > MAXVISIT: raise Undecided('loop in %s not unrolled after %d iterations' % (f.name, MAXVISIT))
            visits = dict(visits)
            visits[b] = n
            nxt = None
            for ins in f.instrs(b):
                op = ins.op
                self.steps += 1
                if op == 'phi':
                    continue
                if op == 'br':
                    c, x, y = ins.a
                    if c is None: nxt = x
                    else:
                        cv = self.val(st, mod, ('i', 1), c)
                        if cv is TRUE: nxt = x
                        elif cv is FALSE: nxt = y
                        elif cv in pcset(st.pc): nxt = x
                        elif NOT(cv) in pcset(st.pc): nxt = y
                        else:
                            return self.branch(f, b, st, [(cv, x), (NOT(cv), y)], stop, depth, visits)
                    break
                if op == 'switch':
                    ty, v, d, cs = ins.a
                    vv = self.val(st, mod, ty, v)
                    alts, rest = [], TRUE
                    for cv, lb in cs:
                        e = icmp('eq', vv, self.const(st, mod, ty, cv))
                        alts.append((AND(rest, e), lb))
                        rest = AND(rest, NOT(e))
                    alts.append((rest, d))
                    alts = [(c, l) for c, l in alts if AND(st.pc, c) is not FALSE]
                    if len(alts) == 1: nxt = alts[0][1]
                    else: return self.branch(f, b, st, alts, stop, depth, visits)
                    break
                if op == 'ret':
                    ty, v = ins.a
                    st.ret = self.val(st, mod, ty, v) if v is not None else None
                    return st
                if op == 'unreachable':
                    self.obl('unreachable', st, FALSE, f.name + ': reaches undefined behaviour (unreachable)')
                    return None
                if op == 'resume' or op == 'landingpad': raise Undecided('exception handling')
                r = self.step(f, st, ins, depth)
                if r is DEAD: return None
                if op == 'invoke':
                    nxt = ins.a[3]
                    break
            self.arrive(f, nxt, st, b)
            b = nxt

    def branch(self, f, b, st, alts, stop, depth, visits):
        j = f.ipdom.get(b, '#exit') if b in f.live else '#exit'
        # stop earlier if our own join is nested inside the caller's region
        outs = []
        for c, lb in alts:
            s = st.fork(c)
            if s.pc is FALSE: continue
            self.arrive(f, lb, s, b)
            r = self.run(f, lb, s, j, depth, visits)
            if r is not None: outs.append((c, r))
        if not outs: return None
        m = outs[-1][1]
        for c, s in reversed(outs[:-1]):
            m = merge_states(c, s, m, st.pc)
        if len(outs) == len(alts) and all(s.pc is AND(st.pc, c) for c, s in outs):
            m.pc = st.pc        # every side returned and nothing was narrowed by assertions
        if j == '#exit': return m
        if j == stop: return m
        return self.run(f, j, m, stop, depth, visits)

    def step(self, f, st, ins, depth):
        mod, op, a = f.mod, ins.op, ins.a
        V = lambda ty, v: self.val(st, mod, ty, v)
        where = f.name
        if op in BIN:
            ty, x, y, flags = a
            rt = mod.res(ty)
            xv, yv = V(ty, x), V(ty, y)
            if rt[0] == 'v':
                r = Agg([self.bin(op, p, q, flags, st, where) for p, q in zip(xv.v, yv.v)])
            else: r = self.bin(op, xv, yv, flags, st, where)
        elif op == 'fneg':
            v = V(a[0], a[1])
            r = Agg([fneg(x) for x in v.v]) if isinstance(v, Agg) else fneg(v)
        elif op == 'icmp':
            p, ty, x, y = a
            xv, yv = V(ty, x), V(ty, y)
            if isinstance(xv, Ptr): r = self.ptrcmp(p, xv, yv)
            elif isinstance(xv, Agg): r = Agg([icmp(p, s, t) for s, t in zip(xv.v, yv.v)])
            else: r = icmp(p, xv, yv)
        elif op == 'fcmp':
            p, ty, x, y = a
            xv, yv = V(ty, x), V(ty, y)
            r = Agg([fcmp(p, s, t) for s, t in zip(xv.v, yv.v)]) if isinstance(xv, Agg) else fcmp(p, xv, yv)
        elif op in CASTS:
            ty, x, dt = a
            xv = V(ty, x)
            d = mod.res(dt)
            if isinstance(xv, Agg) and d[0] == 'v' and op != 'bitcast':
                r = Agg([self.cast(op, e, d[2], st, where) for e in xv.v])
            elif op == 'bitcast' and (isinstance(xv, Agg) or d[0] == 'v'):
                o = self.newobj(st, max(mod.store_size(ty), 1), 'stack', 'bitcast')
                self.store_val(st, mod, ty, xv, ptr(o), where)
                r = self.load_val(st, mod, dt, ptr(o), where)
            else: r = self.cast(op, xv, d, st, where)
        elif op == 'alloca':
            ty, n = a
            size = mod.size_align(ty)[0]
            if n is not None:
                nv = V(*n)
                if nv.op != 'c': raise Undecided('variable alloca')
                size *= nv.args[0]
            r = ptr(self.newobj(st, size, 'stack', f.name + ':' + ins.dst))
        elif op == 'load':
            r = self.load_val(st, mod, a[0], V(('p',), a[1]), where)
        elif op == 'store':
            self.store_val(st, mod, a[0], V(a[0], a[1]), V(('p',), a[2]), where)
            return
        elif op == 'getelementptr':
            bt, p, idx = a
            r = self.gep(st, mod, bt, V(('p',), p), [(t, V(t, x)) for t, x in idx], where)
        elif op in ('call', 'invoke'):
            return self.docall(f, st, ins, depth)
        elif op == 'select':
            ct, c, t1, x, y = a
            cv = V(ct, c)
            if isinstance(cv, Agg):
                xs, ys = V(t1, x), V(t1, y)
                r = Agg([merge(cc, p, q) for cc, p, q in zip(cv.v, xs.v, ys.v)])
            else: r = merge(cv, V(t1, x), V(t1, y))
        elif op == 'extractvalue':
            v = V(a[0], a[1])
            for i in a[3]: v = v.v[i]
            r = v
        elif op == 'insertvalue':
            v = V(a[0], a[1])
            e = V(*a[2])
            r = insv(v, a[3], e)
        elif op == 'extractelement':
            v = V(a[0], a[1])
            alts = self.enum(st, V(*a[3]), where)
            r = None
            for c, i in reversed(alts):
                if not 0 <= i < len(v.v):
                    self.obl('mem-bounds', st, NOT(c), where + ': lane index out of range')
                    continue
                r = v.v[i] if r is None else merge(c, v.v[i], r)
            if r is None: r = self.undef_ty(mod, mod.res(a[0])[2])
        elif op == 'insertelement':
            v = V(a[0], a[1])
            i = V(*a[3])
            if i.op != 'c': raise Undecided('symbolic insertelement')
            e = V(*a[2])
            r = Agg(v.v)
            r.v[i.args[0]] = e
        elif op == 'shufflevector':
            ty, x, y, mt, m = a
            xs, ys = V(ty, x), V(ty, y)
            allv = xs.v + ys.v
            mv = self.const(st, mod, mt, m)
            r = Agg([allv[k.args[0]] if k.op == 'c' else self.undef_ty(mod, mod.res(ty)[2]) for k in mv.v])
        elif op == 'freeze': r = V(a[0], a[1])
        else: raise Undecided('instruction ' + ins.text)
        st.env[ins.dst] = r

    def ptrcmp(self, p, x, y):
        r = FALSE
        for c, o, f in x.alts:
            for c2, o2, f2 in y.alts:
                cc = AND(c, c2)
                if cc is FALSE: continue
                if o == o2 or (o is None and o2 is None):
                    v = boolc(icmp_eval(p, f, f2, 64))
                elif p == 'eq': v = FALSE
                elif p == 'ne': v = TRUE
                else: raise Undecided('ordering of unrelated pointers')
                r = OR(r, AND(cc, v))
        return r

    def cast(self, op, x, d, st, where):
        if op == 'ptrtoint': return self.ptr2int(x, d[1])
        if op == 'inttoptr': return self.int2ptr(x)
        if op == 'bitcast':
            if isinstance(x, Ptr): return x
            if d[0] in ('f', 'd'): return bits2f(x, d[0]) if isinstance(x.sort, int) else x
            if d[0] == 'i': return f2bits(x) if x.sort in ('f', 'd') else x
        n = 'b' if d == ('i', 1) else d[1] if d[0] == 'i' else None
        if op == 'zext': return zext(x, n)
        if op == 'sext': return sext(x, n)
        if op == 'trunc': return trunc(x, n)
        if op == 'fpext': return fpext(x)
        if op == 'fptrunc': return fptrunc(x)
        if op == 'sitofp': return sitofp(x, d[0])
        if op == 'uitofp': return uitofp(x, d[0])
        if op in ('fptosi', 'fptoui'):
            if x.op == 'ite':
                return ite(x.args[0], self.cast(op, x.args[1], d, st, where), self.cast(op, x.args[2], d, st, where))
            if x.op in ('sitofp',) and op == 'fptosi' and x.args[0].sort == n and False: return x.args[0]
            k = fc if x.sort == 'f' else dc
            if x.op == 'c':
                import math
                v = fval(x)
                if v == v and abs(v) < 2 ** 62: return ic(int(math.trunc(v)), n)
            if op == 'fptosi': self.obl('ub-conversion', st, AND(k(-2.0 ** (n - 1)) <= x, x < k(2.0 ** (n - 1))), where + ': float to int conversion out of range')
            else: self.obl('ub-conversion', st, AND(k(-1.0) < x, x < k(2.0 ** n)), where + ': float to unsigned conversion out of range')
            return mk(op, (x,), n)
        raise Undecided('cast ' + op)

    def addr(self, o):
        if o is None: return ic(0, 64)
        return var('addr!%s' % (o if isinstance(o, int) else '/'.join(map(str, o)),), 64)

    def ptr2int(self, x, n):
        """an object's address is an arbitrary number; differences within one object are exact"""
        if not isinstance(x, Ptr) or n != 64: raise Undecided('pointer/integer cast')
        r = None
        for c, o, off in reversed(x.alts):
            v = iop('add', self.addr(o), ic(off, 64))
            r = v if r is None else ite(c, v, r)
        for c, o, off in x.alts: self.addrs[self.addr(o)] = o
        return r

    def int2ptr(self, x):
        out = []

        def walk(t, c):
            if t.op == 'ite':
                walk(t.args[1], AND(c, t.args[0]))
                walk(t.args[2], AND(c, NOT(t.args[0])))
                return
            b, k = (t.args[0], t.args[1]) if t.op == 'add' and t.args[1].op == 'c' else (t, ic(0, 64))
            if b not in self.addrs: raise Undecided('integer to pointer cast')
            out.append((c, self.addrs[b], sgn(k.args[0], 64)))
        walk(x, TRUE)
        return Ptr(out)

    def bin(self, op, x, y, flags, st, where):
        if op == 'fadd': return fadd(x, y)
        if op == 'fsub': return fsub(x, y)
        if op == 'fmul': return fmul(x, y)
        if op == 'fdiv':
            self.divs.append((st.pc, y))
            return fdiv(x, y)
        if op == 'frem': return cfn('fmod', x, y)
        n = x.sort
        if n == 'b': return iop(op, x, y)
        if 'nsw' in flags and op in ('add', 'sub', 'mul'):
            self.obl('ub-overflow', st, noovf(op, x, y), where + ': signed overflow in ' + op)
        if op in ('sdiv', 'srem'):
            self.obl('ub-division', st, AND(NOT(icmp('eq', y, ic(0, n))), NOT(AND(icmp('eq', x, ic(1 << (n - 1), n)), icmp('eq', y, ic(-1, n))))), where + ': integer division by zero or overflow')
        if op in ('udiv', 'urem'):
            self.obl('ub-division', st, NOT(icmp('eq', y, ic(0, n))), where + ': division by zero')
        if op in ('shl', 'lshr', 'ashr'):
            self.obl('ub-shift', st, icmp('ult', y, ic(n, n)), where + ': shift amount out of range')
        return iop(op, x, y)

    def docall(self, f, st, ins, depth):
        mod = f.mod
        rt, callee, args, nxt = ins.a
        if callee[0] == 'g': name = callee[1]
        else:
            p = self.val(st, mod, ('p',), callee)
            if len(p.alts) != 1 or not isinstance(p.alts[0][1], tuple): raise Undecided('indirect call in ' + f.name)
            name = p.alts[0][1][1]
        where = f.name
        bare = name[1:].strip('"')
        if bare.startswith(NOOPS): return
        fun = self.prog.lookup(mod, name)
        if fun is not None:
            av = [self.val(st, mod, t, v) for t, at, v in args]
            summ = self.summaries.get(name)
            if summ is not None:
                r = summ(self, st, f, fun, args, av)
                if r is not NotImplemented:
                    self.stats['calls_by_contract'] += 1
                    if ins.dst: st.env[ins.dst] = r
                    return
            self.stats['calls_inlined'] += 1
            r, st2 = self.call(st, mod, fun, av, depth + 1)
            if st2 is None: return DEAD
            st.mem, st.pc = st2.mem, st2.pc
            if ins.dst: st.env[ins.dst] = r
            return
        if bare in ('__assert_fail', '__assert_rtn', '__assert'):
            self.obl('assertion', st, FALSE, where + ': assertion may fail')
            return DEAD
        if bare in ('abort', 'llvm.trap', '__cxa_pure_virtual', '_ZSt9terminatev', 'exit', '_ZSt21__glibcxx_assert_failPKciS0_S0_', 'llvm.ubsantrap', 'llvm.debugtrap',
                    '__cxa_throw_bad_array_new_length') or bare.startswith('_ZSt') and '__throw' in bare:
            self.obl('abort', st, FALSE, where + ': may call ' + bare)
            return DEAD
        av = [self.val(st, mod, t, v) if v is not None else None for t, at, v in args]
        r = self.builtin(st, mod, bare, av, where, rt)
        if ins.dst: st.env[ins.dst] = r
        self.libcalls.add(bare)

    def builtin(self, st, mod, bare, av, where, rt):
        if bare.startswith(('llvm.memcpy', 'llvm.memmove')) or bare in ('memcpy', 'memmove'):
            n = self.enum(st, av[2], where)
            if len(n) != 1: raise Undecided('memcpy size')
            self.memcpy(st, av[0], av[1], n[0][1], where)
            return av[0]
        if bare.startswith('llvm.memset') or bare == 'memset':
            n = self.enum(st, av[2], where)
            if len(n) != 1: raise Undecided('memset size')
            b = extract(av[1], 0, 8)
            sz = n[0][1]
            alts = self.deref(st, av[0], sz, 'memset', where, True)
            i = 0
            while i < sz:
                k = 4 if (sz - i) >= 4 and all((x[2] + i) % 4 == 0 for x in alts) else 1
                v = b
                for _ in range(k - 1): v = concat(b, v)
                self.store_scalar(st, [(c, o, ff + i) for c, o, ff in alts], k, v)
                i += k
            return av[0]
        m = re.match(r'llvm\.([a-z]+[a-z0-9]*)\.(.*)$', bare)
        if m:
            nm, suf = m.group(1), m.group(2)
            if bare.startswith('llvm.is.fpclass'):
                return self.fpclass(av[0], av[1].args[0]) if not isinstance(av[0], Agg) else Agg([self.fpclass(x, av[1].args[0]) for x in av[0].v])
            vec = isinstance(av[0], Agg) and suf.startswith('v')
            L = (lambda g: Agg([g(*[(x.v[i] if isinstance(x, Agg) else x) for x in av]) for i in range(len(av[0].v))])) if vec else (lambda g: g(*av))
            nm2 = LLVMF.get(nm, nm)
            if nm2 in ARITY or nm2 == 'muladd':
                return L(lambda *x: cfn(nm2, *x))
            if nm in ('smax', 'smin', 'umax', 'umin'):
                p = {'smax': 'sgt', 'smin': 'slt', 'umax': 'ugt', 'umin': 'ult'}[nm]
                return L(lambda x, y: ite(icmp(p, x, y), x, y))
            if nm == 'abs':
                x = av[0]
                if av[1] is TRUE: self.obl('ub-overflow', st, NOT(icmp('eq', x, ic(1 << (x.sort - 1), x.sort))), where + ': abs(INT_MIN)')
                return ite(icmp('slt', x, ic(0, x.sort)), iop('sub', ic(0, x.sort), x), x)
            if nm == 'expect': return av[0]
            mm = re.match(r'([su])(add|sub|mul)$', nm)
            if bare.startswith('llvm.vector.reduce'):
                o = suf.split('.')[0] if nm == 'vector' else None
            if nm in ('fshl', 'fshr') : raise Undecided(bare)
        mo = re.match(r'llvm\.([su])(add|sub|mul)\.with\.overflow', bare)
        if mo:
            r = iop(mo.group(2), av[0], av[1])
            if mo.group(1) == 's': return Agg([r, NOT(noovf(mo.group(2), av[0], av[1]))])
            if mo.group(1) == 'u':
                n = av[0].sort
                w = 2 * n if mo.group(2) == 'mul' else n + 1
                e = iop(mo.group(2), zext(av[0], w), zext(av[1], w))
                return Agg([r, NOT(icmp('eq', zext(r, w), e))])
        if bare.startswith('llvm.is.constant'): return boolc(isinstance(av[0], T) and av[0].op == 'c')
        if bare in ('memcmp', 'bcmp', '__builtin_memcmp'):
            n = self.enum(st, av[2], where)
            if len(n) != 1: raise Undecided('memcmp size')
            return self.memcmp(st, av[0], av[1], n[0][1], where)
        mo = re.match(r'llvm\.fsh([lr])\.i(\d+)$', bare)
        if mo:
            n = int(mo.group(2))
            k = iop('urem', av[2], ic(n, n))
            z = icmp('eq', k, ic(0, n))
            l, r = (k, iop('sub', ic(n, n), k)) if mo.group(1) == 'l' else (iop('sub', ic(n, n), k), k)
            return ite(z, av[0] if mo.group(1) == 'l' else av[1], iop('or', iop('shl', av[0], l), iop('lshr', av[1], r)))
        if bare in ('llvm.x86.sse.min.ps', 'llvm.x86.sse.max.ps'):
            return Agg([ite(x < y if '.min.' in bare else y < x, x, y) for x, y in zip(av[0].v, av[1].v)])
        if bare == 'llvm.x86.sse.movmsk.ps':
            r = ic(0, 32)
            for k, x in enumerate(av[0].v): r = iop('or', r, iop('shl', iop('lshr', asint(x, 4), ic(31, 32)), ic(k, 32)))
            return r
        if bare in ('modff', 'modf'):
            x = av[0]
            t = cfn('trunc', x)
            self.store_val(st, mod, ('f',) if x.sort == 'f' else ('d',), t, av[1], where)
            inf = fcmp_eq(fabs(x), fbits(0x7f800000, 'f') if x.sort == 'f' else dc(float('inf')))
            return cfn('copysign', ite(inf, fbits(0, x.sort), fsub(x, t)), x)
        if bare in ('ldexpf', 'ldexp', 'scalbnf', 'scalbn', 'scalblnf'):
            if av[1].op == 'c' and -126 <= sgn(av[1].args[0], av[1].sort) <= 127:
                k = 2.0 ** sgn(av[1].args[0], av[1].sort)
                return fmul(av[0], fc(k) if av[0].sort == 'f' else dc(k))
        if bare == '__cxa_guard_acquire':
            self.guarding = av[0].alts[0][1]
            return ic(1, 32)
        if bare == '__cxa_guard_release':
            self.initialised(st, av[0].alts[0][1], where)
            return None
        if bare.startswith('llvm.objectsize'): return ic(-1, 64)
        if bare in ('abs', 'labs', 'llabs'):
            x = av[0]
            self.obl('ub-overflow', st, NOT(icmp('eq', x, ic(1 << (x.sort - 1), x.sort))), where + ': abs(INT_MIN)')
            return ite(icmp('slt', x, ic(0, x.sort)), iop('sub', ic(0, x.sort), x), x)
        if bare in ('__isnanf', '__isnan', 'isnanf'): return zext(isnan(av[0]), 32)
        if bare in ('__isinff', '__isinf', 'isinff'): return zext(fcmp_eq(fabs(av[0]), fbits(0x7f800000, 'f') if av[0].sort == 'f' else dc(float('inf'))), 32)
        if bare in ('sincosf', 'sincos'):
            t = ('f',) if bare[-1] == 'f' else ('d',)
            self.store_val(st, mod, t, cfn('sin', av[0]), av[1], where)
            self.store_val(st, mod, t, cfn('cos', av[0]), av[2], where)
            return None
        base = bare[:-1] if bare.endswith('f') and bare[:-1] in ARITY and rt == ('f',) else bare if bare in ARITY and rt == ('d',) else None
        if base: return cfn(base, *av)
        raise Undecided('call to external function %s in %s' % (bare, where))

    def memcmp(self, st, p, q, n, where):
        sides = []
        for x in (p, q):
            alts = self.deref(st, x, n, 'memcmp read', where, False) if n else []
            step = 4 if n % 4 == 0 and all(a[2] % 4 == 0 for a in alts) else 1
            sides.append((alts, step))
        step = min(s for a, s in sides)
        r = ic(0, 32)
        for i in reversed(range(0, n, step)):
            w = []
            for alts, _ in sides:
                v = None
                for c, o, off in reversed(alts):
                    b = self.read_bytes(self.getobj(st, o), off + i, step, step * 8)
                    v = b if v is None else merge(c, b, v)
                w.append(v if v is not None else self.undef(step * 8))
            e = r
            for k in reversed(range(step)):
                x, y = extract(w[0], 8 * k, 8), extract(w[1], 8 * k, 8)
                e = ite(icmp('eq', x, y), e, ite(icmp('ult', x, y), ic(-1, 32), ic(1, 32)))
            r = ite(icmp('eq', w[0], w[1]), r, e) if step > 1 else e
        return r

    def initialised(self, st, g, where):
        """end of the initialisation of a function-local static: its value must not depend on this call"""
        self.guarding = None
        st.mem[g] = self.write_cell(self.getobj(st, g), 0, 1, ic(1, 8))
        gn = self.getobj(st, g).name
        nm = '@_Z' + gn[len('@_ZGV'):]
        for o, ob in list(st.mem.items()):
            if ob.name != nm: continue
            for off, (sz, v) in ob.cells.items():
                if isinstance(v, Ptr) or free_vars(v):
                    self.obl('frame', st, FALSE, '%s: a function-local static keeps a value of the first call' % where)
                    return
            st.mem[o] = Obj(ob.size, ob.cells, 'gconst', nm)

    def fpclass(self, x, mask):
        inf = fbits(0x7f800000, 'f') if x.sort == 'f' else dc(float('inf'))
        nan, isinf = isnan(x), fcmp_eq(fabs(x), inf)
        w = 32 if x.sort == 'f' else 64
        sign = None
        r = FALSE
        if mask & 3 == 3: r = OR(r, nan)
        elif mask & 3: raise Undecided('signalling NaN test')
        if mask & 0x204 == 0x204: r = OR(r, isinf)
        else:
            if mask & 0x200: r = OR(r, fcmp_eq(x, inf))
            if mask & 0x4: r = OR(r, fcmp_eq(x, fneg(inf)))
        fin = mask & 0x1f8
        if fin == 0x1f8: r = OR(r, AND(NOT(nan), NOT(isinf)))
        elif fin:
            a = fabs(x)
            mn = fbits(0x00800000, 'f') if x.sort == 'f' else fbits(1 << 52, 'd')
            z = fbits(0, x.sort)
            pos = icmp('eq', extract(f2bits(x), w - 1, 1) if False else iop('lshr', f2bits(x), ic(w - 1, w)), ic(0, w))
            cls = {0x08: (NOT(pos), AND(mn <= a, a < inf)), 0x10: (NOT(pos), AND(z < a, a < mn)), 0x20: (NOT(pos), fcmp_eq(a, z)),
                   0x40: (pos, fcmp_eq(a, z)), 0x80: (pos, AND(z < a, a < mn)), 0x100: (pos, AND(mn <= a, a < inf))}
            pairs = [(0x08, 0x100), (0x10, 0x80), (0x20, 0x40)]
            for p, q in pairs:
                if fin & p and fin & q: r = OR(r, cls[p][1])
                elif fin & p: r = OR(r, AND(*cls[p]))
                elif fin & q: r = OR(r, AND(*cls[q]))
        return r


DEAD = object()


def word_in(nm, ln):
    return nm in ln and re.search(r'(?<![\w.$@%])' + re.escape(nm) + r'(?![\w.$])', ln) is not None


def never_written(mod, nm, skip=()):
    """internal-linkage global whose address is only ever used to load from (within its translation unit).
    Outside the functions in skip (its initialisers), it may also be passed to const member functions and as const reference."""
    for g, rest in mod.globals.items():
        if g != nm and word_in(nm, rest): return False
    for fname, f in mod.funcs.items():
        if fname in skip: continue
        names = {nm}
        body = f.body[1:]
        if not any(nm in ln for ln in body): continue
        work = [nm]
        while work:
            x = work.pop()
            w = re.compile(r'(?<![\w.$@%])' + re.escape(x) + r'(?![\w.$])')
            for ln in body:
                if not w.search(ln): continue
                d = re.match(r'\s*(%[\w.$-]+) = (.*)$', ln)
                if d and d.group(1) == x and len(w.findall(ln)) == 1: continue
                if d and d.group(2).startswith('getelementptr'):
                    if d.group(1) not in names:
                        names.add(d.group(1))
                        work.append(d.group(1))
                    continue
                if d and re.match(r'load (?!atomic|volatile)', d.group(2)): continue
                if skip:
                    c = re.search(r'call .*?(@[\w.$]+)\((.*)\)', ln)
                    if c and len(w.findall(ln)) == 1:
                        if c.group(1).startswith('@_ZNK'): continue
                        if c.group(1).startswith('@llvm.memcpy') and w.search(c.group(2).split(',')[1]): continue
                        if re.search(r'RK', c.group(1)) and not re.search(r'R(?!K)[A-Z0-9a-z]*N|P(?!K)|R[a-z]', re.sub(r'RK', '', c.group(1))): continue
                return False
    return True


def pcset(pc):
    return pc.args if pc.op == 'and' else (pc,)


def noovf(op, x, y):
    n = x.sort
    if x.op == 'c' and y.op == 'c':
        a, b = sgn(x.args[0], n), sgn(y.args[0], n)
        r = {'add': a + b, 'sub': a - b, 'mul': a * b}[op]
        return boolc(-(1 << (n - 1)) <= r < (1 << (n - 1)))
    w = 2 * n if op == 'mul' else n + 1
    r = iop(op, sext(x, w), sext(y, w))
    lo, hi = ic(-(1 << (n - 1)), w), ic((1 << (n - 1)) - 1, w)
    return AND(NOT(icmp('slt', r, lo)), NOT(icmp('slt', hi, r)))


def asint(v, size):
    if v.sort in ('f', 'd'): return f2bits(v)
    return v


def conv(v, sort):
    if v.sort == sort: return v
    if sort in ('f', 'd'): return bits2f(v, sort)
    if v.sort in ('f', 'd'): return f2bits(v)
    raise Undecided('width mismatch %s %s' % (v.sort, sort))


def insv(v, idx, e):
    r = Agg(v.v)
    if len(idx) == 1: r.v[idx[0]] = e
    else: r.v[idx[0]] = insv(r.v[idx[0]], idx[1:], e)
    return r


def merge(c, a, b):
    """value of a when c else b"""
    if a is b: return a
    if isinstance(a, T) and isinstance(b, T):
        if a.sort != b.sort: raise Undecided('merge sorts')
        return ite(c, a, b)
    if isinstance(a, Ptr) and isinstance(b, Ptr):
        if a.key() == b.key(): return a
        out = {}
        for g, p in ((c, a), (NOT(c), b)):
            for cc, o, f in p.alts:
                x = AND(g, cc)
                if x is FALSE: continue
                out[(o, f)] = OR(out.get((o, f), FALSE), x)
        return Ptr([(x, o, f) for (o, f), x in out.items()])
    if isinstance(a, Agg) and isinstance(b, Agg):
        return Agg([merge(c, x, y) for x, y in zip(a.v, b.v)])
    raise Undecided('merge of different kinds')


def merge_states(c, s1, s2, pc):
    m = State({}, pc)
    ex = Exec(None)
    for o in set(s1.mem) | set(s2.mem):
        a, b = s1.mem.get(o), s2.mem.get(o)
        if a is None or b is None:
            m.mem[o] = a or b
            continue
        m.mem[o] = a if a is b else merge_obj(c, a, b)
    for k in s1.env:
        if k in s2.env:
            a, b = s1.env[k], s2.env[k]
            if a is b: m.env[k] = a
            else:
                try: m.env[k] = merge(c, a, b)
                except Undecided: pass
    if s1.ret is not None and s2.ret is not None: m.ret = merge(c, s1.ret, s2.ret)
    m.phidone = True
    m.pc = OR(s1.pc, s2.pc)
    return m


_u = [0]


def merge_obj(c, a, b):
    if a.cells is b.cells: return a
    cells = {}
    ka = {k: v[0] for k, v in a.cells.items()}
    kb = {k: v[0] for k, v in b.cells.items()}
    rd = Exec(None)
    for k in sorted(set(ka) | set(kb)):
        if k in ka and k in kb and ka[k] == kb[k]:
            x, y = a.cells[k][1], b.cells[k][1]
            if x is y: cells[k] = (ka[k], x)
            elif isinstance(x, T) and isinstance(y, T):
                if x.sort != y.sort:
                    s = 'f' if 'f' in (x.sort, y.sort) and ka[k] == 4 else ka[k] * 8
                    x, y = conv(x, s), conv(y, s)
                cells[k] = (ka[k], ite(c, x, y))
            else: cells[k] = (ka[k], merge(c, x, y))
        else:
            # differently tiled or uninitialised on one side
            src, other, cc = (a, b, c) if k in ka and (k not in kb or ka[k] <= kb[k]) else (b, a, NOT(c))
            sz, v = src.cells[k]
            if any(k2 < k + sz and k2 + s2 > k for k2, (s2, _) in cells.items()): continue
            if isinstance(v, Ptr):
                cells[k] = (sz, v)
                continue
            s = v.sort if v.sort in ('f', 'd') else sz * 8
            rd.undefs = _u[0] * 1000 + 500000
            _u[0] += 1
            w = rd.read_bytes(other, k, sz, s)
            cells[k] = (sz, ite(cc, conv(v, s), w))
    return Obj(a.size, cells, a.kind, a.name)
