"""Parser for the textual LLVM IR that clang emits for /repo's sources (opaque pointers, -O0)."""
import re, struct


class Undecided(Exception):
    """The machinery cannot decide (never reported as a violation)."""


TOK = re.compile(r'''\s*(?:
 (?P<s>[%@]"(?:[^"\\]|\\.)*"|[%@][\w.$-]+|c?"(?:[^"\\]|\\.)*")|
 (?P<n>-?\d+\.\d+(?:e[+-]?\d+)?|0x[KMLHR]?[0-9A-Fa-f]+|-?\d+)|
 (?P<w>[A-Za-z_][\w.]*|![\w.]*|\#\d+|\.\.\.)|
 (?P<p>[\[\]{}()<>,=*:|])
)''', re.X)


def tokenize(s):
    out, i, n = [], 0, len(s)
    while i < n:
        m = TOK.match(s, i)
        if not m:
            if s[i:].strip() == '' or s[i:].lstrip().startswith(';'):
                break
            raise Undecided('IR token: ' + s[i:i + 60])
        out.append(m.group(m.lastgroup))
        i = m.end()
    return out


# types: ('i',n) ('f',) ('d',) ('p',) ('v',n,T) ('a',n,T) ('s',(T..),packed) ('void',) ('named',name) ('label',) ('fn',)
class Toks:
    def __init__(self, toks, mod):
        self.t, self.i, self.mod = toks, 0, mod

    def peek(self, k=0):
        return self.t[self.i + k] if self.i + k < len(self.t) else None

    def next(self):
        x = self.t[self.i]
        self.i += 1
        return x

    def acc(self, x):
        if self.peek() == x:
            self.i += 1
            return True
        return False

    def exp(self, x):
        if not self.acc(x):
            raise Undecided('IR syntax: expected %s got %s in %s' % (x, self.peek(), ' '.join(self.t)[:200]))

    def type(self):
        t = self.next()
        if t == 'void': r = ('void',)
        elif t == 'float': r = ('f',)
        elif t == 'double': r = ('d',)
        elif t == 'x86_fp80': r = ('x80',)
        elif t == 'ptr': r = ('p',)
        elif t == 'label': r = ('label',)
        elif t == 'metadata': r = ('meta',)
        elif t == 'half': r = ('half',)
        elif re.match(r'i\d+$', t): r = ('i', int(t[1:]))
        elif t == '<':
            if self.peek() == '{':
                self.next()
                r = ('s', self.typelist('}'), True)
                self.exp('>')
            else:
                n = int(self.next())
                self.exp('x')
                e = self.type()
                self.exp('>')
                r = ('v', n, e)
        elif t == '[':
            n = int(self.next())
            self.exp('x')
            e = self.type()
            self.exp(']')
            r = ('a', n, e)
        elif t == '{':
            r = ('s', self.typelist('}'), False)
        elif t[0] == '%':
            r = ('named', t)
        else:
            raise Undecided('IR type ' + t)
        # function type "T (args)" / varargs
        if self.peek() == '(' and r[0] != 'label':
            save = self.i
            self.next()
            depth = 1
            while depth:
                x = self.next()
                depth += x == '('
                depth -= x == ')'
            if self.peek() is not None and (self.peek()[0] in '@%' or self.peek() == 'asm'):
                return ('fn', r)
            self.i = save
        return r

    def typelist(self, end):
        out = []
        if self.acc(end): return tuple(out)
        while True:
            out.append(self.type())
            if self.acc(end): return tuple(out)
            self.exp(',')

    ATTR1 = {'noundef', 'zeroext', 'signext', 'inreg', 'nonnull', 'noalias', 'nocapture', 'readonly', 'writeonly', 'readnone',
             'immarg', 'returned', 'nest', 'swiftself', 'inalloca', 'writable', 'dead_on_unwind', 'allocptr', 'noext'}

    def attrs(self):
        out = {}
        while True:
            t = self.peek()
            if t in self.ATTR1:
                out[t] = True
                self.next()
            elif t in ('sret', 'byval', 'byref', 'elementtype', 'preallocated'):
                self.next()
                self.exp('(')
                out[t] = self.type()
                self.exp(')')
            elif t == 'align':
                self.next()
                if self.acc('('):
                    self.next(); self.exp(')')
                else: self.next()
            elif t in ('dereferenceable', 'dereferenceable_or_null', 'range', 'nofpclass', 'captures', 'initializes'):
                self.next()
                self.exp('(')
                d = 1
                while d:
                    x = self.next()
                    d += x == '('
                    d -= x == ')'
            else:
                return out

    def value(self, ty):
        t = self.next()
        if t[0] == '%': return ('l', t)
        if t[0] == '@': return ('g', t)
        if t in ('true', 'false'): return ('int', t == 'true')
        if t == 'null': return ('null',)
        if t in ('undef', 'poison'): return ('undef',)
        if t == 'zeroinitializer': return ('zero',)
        if t[0] == 'c' and len(t) > 1 and t[1] == '"':
            s = t[2:-1]
            b = bytearray()
            i = 0
            while i < len(s):
                if s[i] == '\\':
                    if s[i + 1] == '\\':
                        b.append(92); i += 2
                    else:
                        b.append(int(s[i + 1:i + 3], 16)); i += 3
                else:
                    b.append(ord(s[i])); i += 1
            return ('bytes', bytes(b))
        if t == '<' and self.peek() == '{':
            self.next()
            r = self.vlist('}')
            self.exp('>')
            return ('agg', r)
        if t == '<': return ('agg', self.vlist('>'))
        if t == '[': return ('agg', self.vlist(']'))
        if t == '{': return ('agg', self.vlist('}'))
        if t == 'getelementptr':
            while self.peek() in ('inbounds', 'nuw', 'nusw', 'inrange'):
                if self.next() == 'inrange' and self.acc('('):
                    while self.next() != ')': pass
            self.exp('(')
            bt = self.type()
            self.exp(',')
            pt = self.type()
            p = self.value(pt)
            idx = []
            while self.acc(','):
                if self.acc('inrange') and self.acc('('):
                    while self.next() != ')': pass
                it = self.type()
                idx.append((it, self.value(it)))
            self.exp(')')
            return ('cgep', bt, p, idx)
        if t in ('bitcast', 'inttoptr', 'ptrtoint', 'addrspacecast'):
            self.exp('(')
            st = self.type()
            v = self.value(st)
            self.exp('to')
            dt = self.type()
            self.exp(')')
            return ('ccast', t, st, v, dt)
        if ty[0] in ('f', 'd'):
            if t.startswith('0x'):
                d = struct.unpack('>d', bytes.fromhex(t[2:].rjust(16, '0')))[0]
                bits = int(t[2:], 16)
            else:
                d = float(t)
                bits = None
            if ty[0] == 'f':
                if d != d: return ('fbits', 0x7fc00000)
                return ('fbits', struct.unpack('<I', struct.pack('<f', d))[0] if abs(d) != float('inf') else (0x7f800000 if d > 0 else 0xff800000))
            return ('fbits', struct.unpack('<Q', struct.pack('<d', d))[0])
        if ty[0] == 'i': return ('int', int(t))
        raise Undecided('IR value %s of type %s' % (t, ty))

    def vlist(self, end):
        out = []
        if self.acc(end): return out
        while True:
            ty = self.type()
            out.append((ty, self.value(ty)))
            if self.acc(end): return out
            self.exp(',')

    def tv(self):
        ty = self.type()
        self.attrs()
        return ty, self.value(ty)


class Instr:
    __slots__ = ('dst', 'op', 'a', 'text')

    def __init__(s, dst, op, a, text):
        s.dst, s.op, s.a, s.text = dst, op, a, text


class Function:
    def __init__(self, mod, name, header, body):
        self.mod, self.name, self.header, self.body = mod, name, header, body
        self.blocks = None
        self.ipdom = None

    def parse(self):
        if self.blocks is not None: return
        mod = self.mod
        # header: define ... retty @name(params) attrs {
        toks = tokenize(self.header)
        at = next(i for i, x in enumerate(toks) if x[0] == '@')
        h = Toks(toks, mod)
        # skip linkage etc. words up to type
        skip = {'define', 'dso_local', 'internal', 'private', 'linkonce_odr', 'weak_odr', 'linkonce', 'weak', 'available_externally',
                'external', 'hidden', 'protected', 'default', 'unnamed_addr', 'local_unnamed_addr', 'noundef', 'zeroext', 'signext', 'nonnull',
                'noalias', 'x86_vectorcallcc', 'fastcc', 'coldcc', 'ccc', 'mustprogress', 'extern_weak', 'common', 'preemptable'}
        while True:
            if h.peek() in skip: h.next()
            elif h.peek() in ('align', ): h.next(); h.next()
            elif h.peek() in ('dereferenceable', 'dereferenceable_or_null', 'range', 'nofpclass'):
                h.next()
                while h.next() != ')': pass
            else: break
        self.ret = h.type()
        h.next()
        h.exp('(')
        self.params = []
        if not h.acc(')'):
            while True:
                if h.acc('...'):
                    h.exp(')'); break
                ty = h.type()
                at_ = h.attrs()
                nm = h.next()
                self.params.append((ty, at_, nm))
                if h.acc(')'): break
                h.exp(',')
        self.blocks = {}
        self.order = []
        cur = None
        npar = sum(1 for p in self.params if re.match(r'%\d+$', p[2]))
        entry = '%' + str(npar)
        lines = self.body
        i = 0
        while i < len(lines):
            ln = lines[i]
            i += 1
            s = ln.strip()
            if not s or s[0] == ';': continue
            m = re.match(r'^("(?:[^"\\]|\\.)*"|[\w.$-]+):', ln)
            if m:
                cur = '%' + m.group(1)
                self.blocks[cur] = []
                self.order.append(cur)
                continue
            if cur is None:
                cur = '%entry?'
                self.blocks[cur] = []
                self.order.append(cur)
            if s.startswith('switch') and not s.rstrip().endswith(']'):
                while ']' not in lines[i]:
                    s += ' ' + lines[i].strip(); i += 1
                s += ' ' + lines[i].strip(); i += 1
            if (s.startswith('invoke') or '= invoke' in s) and ' unwind ' not in s:
                s += ' ' + lines[i].strip(); i += 1
            if 'landingpad' in s:
                while i < len(lines) and re.match(r'\s+(catch|cleanup|filter)\b', lines[i]): i += 1
            self.blocks[cur].append(s)
        self.entry = self.order[0]
        # instructions are parsed per block, lazily
        self.parsed = {}
        self._succ()

    def _succ(self):
        self.succ = {}
        for b, ins in self.blocks.items():
            t = ins[-1]
            op = t.split(None, 1)[0]
            if re.match(r'%[^ ]+ = invoke', t): op = 'invoke'
            if op in ('br', 'switch'):
                self.succ[b] = list(dict.fromkeys(re.findall(r'label (%"(?:[^"\\]|\\.)*"|%[\w.$-]+)', t)))
            elif op == 'invoke':
                self.succ[b] = [re.findall(r'to label (%"(?:[^"\\]|\\.)*"|%[\w.$-]+)', t)[0]]
            else:
                self.succ[b] = []
        # blocks that can reach a ret
        retb = [b for b, ins in self.blocks.items() if ins[-1].startswith('ret')]
        pred = {b: [] for b in self.blocks}
        for b, ss in self.succ.items():
            for s in ss: pred[s].append(b)
        live, st = set(retb), list(retb)
        while st:
            for p in pred[st.pop()]:
                if p not in live:
                    live.add(p); st.append(p)
        self.live = live
        EXIT = '#exit'
        nodes = [b for b in self.order if b in live]
        full = set(nodes) | {EXIT}
        pd = {b: set(full) for b in nodes}
        pd[EXIT] = {EXIT}
        changed = True
        while changed:
            changed = False
            for b in reversed(nodes):
                ss = [s for s in self.succ[b] if s in live]
                if b in retb: ss = [EXIT]
                new = set.intersection(*[pd[s] for s in ss]) | {b} if ss else {b}
                if new != pd[b]:
                    pd[b] = new
                    changed = True
        self.ipdom = {}
        for b in nodes:
            cand = pd[b] - {b}
            # immediate: the one whose pdom set is largest
            self.ipdom[b] = max(cand, key=lambda c: len(pd[c])) if cand else EXIT
        # loop headers are found dynamically

    def instrs(self, b):
        p = self.parsed.get(b)
        if p is None:
            p = self.parsed[b] = [parse_instr(s, self.mod) for s in self.blocks[b]]
        return p


FLAGS = {'nsw', 'nuw', 'exact', 'fast', 'nnan', 'ninf', 'nsz', 'arcp', 'contract', 'afn', 'reassoc', 'inbounds', 'volatile', 'tail', 'musttail',
         'notail', 'nneg', 'disjoint', 'nusw', 'samesign'}
BIN = {'add', 'sub', 'mul', 'udiv', 'sdiv', 'urem', 'srem', 'and', 'or', 'xor', 'shl', 'lshr', 'ashr', 'fadd', 'fsub', 'fmul', 'fdiv', 'frem'}
CASTS = {'zext', 'sext', 'trunc', 'bitcast', 'fpext', 'fptrunc', 'sitofp', 'uitofp', 'fptosi', 'fptoui', 'ptrtoint', 'inttoptr'}


def parse_instr(s, mod):
    k = Toks(tokenize(re.sub(r',?\s*![\w.]+ ![\w.]+|,\s*!dbg ![0-9]+', '', s)), mod)
    dst = None
    if k.peek(1) == '=':
        dst = k.next()
        k.next()
    flags = set()
    while k.peek() in FLAGS: flags.add(k.next())
    op = k.next()
    while k.peek() in FLAGS: flags.add(k.next())
    a = None
    if op in BIN:
        ty = k.type(); x = k.value(ty); k.exp(','); y = k.value(ty)
        a = (ty, x, y, flags)
    elif op == 'fneg':
        ty = k.type(); a = (ty, k.value(ty))
    elif op in ('icmp', 'fcmp'):
        while k.peek() in FLAGS: k.next()
        p = k.next(); ty = k.type(); x = k.value(ty); k.exp(','); y = k.value(ty)
        a = (p, ty, x, y)
    elif op in CASTS:
        ty = k.type(); x = k.value(ty); k.exp('to'); a = (ty, x, k.type())
    elif op == 'alloca':
        ty = k.type()
        n = None
        if k.acc(',') and k.peek() != 'align':
            nt = k.type(); n = (nt, k.value(nt))
        a = (ty, n)
    elif op == 'load':
        if k.acc('atomic') and not ('@_ZGV' in s and ' acquire' in s): raise Undecided('atomic load')
        ty = k.type(); k.exp(','); pt = k.type(); a = (ty, k.value(pt))
    elif op == 'store':
        if k.peek() == 'atomic': raise Undecided('atomic store')
        ty = k.type(); v = k.value(ty); k.exp(','); pt = k.type(); a = (ty, v, k.value(pt))
    elif op == 'getelementptr':
        bt = k.type(); k.exp(','); pt = k.type(); p = k.value(pt)
        idx = []
        while k.acc(','):
            it = k.type(); idx.append((it, k.value(it)))
        a = (bt, p, idx)
    elif op in ('call', 'invoke'):
        while k.peek() in ('x86_vectorcallcc', 'fastcc', 'ccc', 'coldcc'): k.next()
        k.attrs()
        rt = k.type()
        if rt[0] == 'fn': rt = rt[1]
        k.attrs()
        if k.peek() == 'asm': raise Undecided('inline asm')
        callee = k.value(('p',))
        k.exp('(')
        args = []
        if not k.acc(')'):
            while True:
                ty = k.type()
                at = k.attrs()
                if ty[0] == 'meta':
                    # skip metadata operand
                    d = 0
                    while not (d == 0 and k.peek() in (',', ')')):
                        x = k.next(); d += x == '('; d -= x == ')'
                    args.append((ty, at, None))
                else:
                    args.append((ty, at, k.value(ty)))
                if k.acc(')'): break
                k.exp(',')
        nxt = None
        if op == 'invoke':
            while k.peek() != 'to': k.next()
            k.next(); k.exp('label'); nxt = k.next()
        a = (rt, callee, args, nxt)
    elif op == 'br':
        if k.peek() == 'label':
            k.next(); a = (None, k.next(), None)
        else:
            ty = k.type(); c = k.value(ty); k.exp(','); k.exp('label'); x = k.next(); k.exp(','); k.exp('label'); a = (c, x, k.next())
    elif op == 'switch':
        ty = k.type(); v = k.value(ty); k.exp(','); k.exp('label'); d = k.next(); k.exp('[')
        cs = []
        while not k.acc(']'):
            ct = k.type(); cv = k.value(ct); k.exp(','); k.exp('label'); cs.append((cv, k.next()))
        a = (ty, v, d, cs)
    elif op == 'ret':
        ty = k.type(); a = (ty, k.value(ty) if ty[0] != 'void' else None)
    elif op == 'phi':
        ty = k.type(); inc = []
        while True:
            k.exp('['); v = k.value(ty); k.exp(','); b = k.next(); k.exp(']'); inc.append((v, b))
            if not k.acc(','): break
        a = (ty, inc)
    elif op == 'select':
        ct = k.type(); c = k.value(ct); k.exp(','); t1 = k.type(); x = k.value(t1); k.exp(','); t2 = k.type(); y = k.value(t2)
        a = (ct, c, t1, x, y)
    elif op in ('extractvalue', 'insertvalue'):
        ty = k.type(); v = k.value(ty)
        e = None
        k.exp(',')
        if op == 'insertvalue':
            et = k.type(); e = (et, k.value(et)); k.exp(',')
        idx = [int(k.next())]
        while k.acc(','): idx.append(int(k.next()))
        a = (ty, v, e, idx)
    elif op in ('extractelement', 'insertelement'):
        ty = k.type(); v = k.value(ty); k.exp(',')
        e = None
        if op == 'insertelement':
            et = k.type(); e = (et, k.value(et)); k.exp(',')
        it = k.type(); a = (ty, v, e, (it, k.value(it)))
    elif op == 'shufflevector':
        ty = k.type(); x = k.value(ty); k.exp(','); t2 = k.type(); y = k.value(t2); k.exp(','); mt = k.type(); a = (ty, x, y, mt, k.value(mt))
    elif op == 'freeze':
        ty = k.type(); a = (ty, k.value(ty))
    elif op == 'unreachable':
        a = ()
    elif op in ('landingpad', 'resume'):
        a = ()
    else:
        raise Undecided('IR instruction: ' + s)
    return Instr(dst, op, a, s)


class Module:
    """one translation unit"""

    def __init__(self, prog, name, text):
        self.prog, self.name = prog, name
        self.types, self.funcs, self.globals, self.aliases, self.decls = {}, {}, {}, {}, set()
        lines = text.split('\n')
        i, n = 0, len(lines)
        while i < n:
            ln = lines[i]
            i += 1
            if not ln or ln[0] in ';!' or ln.startswith(('attributes', 'source_filename', 'target', '$', 'declare')):
                if ln.startswith('declare'):
                    m = re.search(r'@("(?:[^"\\]|\\.)*"|[\w.$-]+)\(', ln)
                    if m: self.decls.add('@' + m.group(1))
                continue
            if ln.startswith('define'):
                j = i
                while lines[j] != '}': j += 1
                m = re.search(r'(@"(?:[^"\\]|\\.)*"|@[\w.$-]+)\(', ln)
                nm = m.group(1)
                self.funcs[nm] = Function(self, nm, ln, lines[i:j])
                self.funcs[nm].internal = bool(re.match(r'define (internal|private) ', ln))
                i = j + 1
            elif ln[0] == '%':
                m = re.match(r'(%"(?:[^"\\]|\\.)*"|%[\w.$-]+) = type (.*)$', ln)
                self.types[m.group(1)] = m.group(2)
            elif ln[0] == '@':
                m = re.match(r'(@"(?:[^"\\]|\\.)*"|@[\w.$-]+) = (.*)$', ln)
                nm, rest = m.group(1), m.group(2)
                if re.search(r'\balias\b', rest.split('"')[0]):
                    tgt = re.findall(r'(@"(?:[^"\\]|\\.)*"|@[\w.$-]+)', rest)[-1]
                    self.aliases[nm] = tgt
                else:
                    self.globals[nm] = rest
        self._tcache = {}

    def named(self, nm):
        r = self._tcache.get(nm)
        if r is None:
            txt = self.types.get(nm)
            if txt is None: raise Undecided('unknown type ' + nm)
            if txt.strip() == 'opaque': r = ('opaque',)
            else: r = Toks(tokenize(txt), self).type()
            self._tcache[nm] = r
        return r

    def res(self, ty):
        return self.named(ty[1]) if ty[0] == 'named' else ty

    def size_align(self, ty):
        ty = self.res(ty)
        k = ty[0]
        if k == 'i':
            b = (ty[1] + 7) // 8
            al = 1
            while al < b: al *= 2
            al = min(al, 16 if ty[1] > 64 else 8)
            return ((b + al - 1) // al * al, al)
        if k == 'f': return (4, 4)
        if k == 'd': return (8, 8)
        if k == 'x80': return (16, 16)
        if k == 'p': return (8, 8)
        if k == 'v':
            s, _ = self.size_align(ty[2])
            t = s * ty[1]
            al = 1
            while al < t: al *= 2
            return (al, al) if False else ((t + al - 1) // al * al, al)
        if k == 'a':
            s, al = self.size_align(ty[2])
            return (s * ty[1], al)
        if k == 's':
            off, ma = 0, 1
            for e in ty[1]:
                s, al = self.size_align(e)
                if ty[2]: al = 1
                off = (off + al - 1) // al * al + s
                ma = max(ma, al)
            return ((off + ma - 1) // ma * ma, ma)
        raise Undecided('size of %s' % (ty,))

    def store_size(self, ty):
        """bytes actually stored/loaded"""
        ty = self.res(ty)
        if ty[0] == 'i': return (ty[1] + 7) // 8
        if ty[0] == 'v': return self.store_size(ty[2]) * ty[1]
        return self.size_align(ty)[0]

    def field_offset(self, ty, i):
        off = 0
        for j, e in enumerate(ty[1]):
            s, al = self.size_align(e)
            if ty[2]: al = 1
            off = (off + al - 1) // al * al
            if j == i: return off
            off += s
        raise Undecided('field index')


class Program:
    """all translation units; resolves symbols like the linker does"""

    def __init__(self):
        self.mods = []
        self.extern = {}

    def add(self, name, text):
        m = Module(self, name, text)
        self.mods.append(m)
        for nm, f in m.funcs.items():
            if not f.internal and nm not in self.extern:
                self.extern[nm] = f
        for nm, tg in m.aliases.items():
            if nm not in self.extern and tg in m.funcs:
                self.extern[nm] = m.funcs[tg]
        return m

    def lookup(self, mod, nm):
        if nm in mod.funcs and mod.funcs[nm].internal: return mod.funcs[nm]
        f = self.extern.get(nm) or mod.funcs.get(nm)
        if f is None and nm in mod.aliases: return self.lookup(mod, mod.aliases[nm])
        return f
