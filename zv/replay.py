"""Running the real code (compiled with g++ as the project does) on concrete inputs, and evaluating contracts on the result."""
import os, re, struct, subprocess, select, time, math, random
import numpy as np
import mpmath
from concurrent.futures import ThreadPoolExecutor
from .extract import BuildError
from .terms import *
from .contract import *
from .contract import KS
from .evalt import *
from . import extract

mpf = mpmath.mpf


def params_of(c): return c.params + ([c.ret] if c.ret else [])


def runner_source(contracts, header):
    s = [header, '#include <cstdio>', '#include <cstdlib>', '#include <cstring>']
    for c in contracts:
        s.append(c.harness())
        a = ', '.join('(%s%s*)p[%d]' % ('const ' if p.mode == 'in' and p is not c.ret else '', p.cxx, i) for i, p in enumerate(params_of(c)))
        s.append('static void W_%s(void** p) { H_%s(%s); }' % (c.fn, c.fn, a))
    s.append('struct Ent { const char* n; void (*f)(void**); int np; int sz[20]; };')
    s.append('static Ent T[] = {')
    for c in contracts:
        ps = params_of(c)
        s.append('{"%s", W_%s, %d, {%s}},' % (c.fn, c.fn, len(ps), ','.join(str(p.size) for p in ps) or '0'))
    s.append('{0,0,0,{0}}};')
    s.append(r'''
static int hx(int c) { return c <= '9' ? c - '0' : c - 'a' + 10; }
int main() {
  static char line[65536];
  while (fgets(line, sizeof line, stdin)) {
    char* tok = strtok(line, " \n"); if (!tok) continue;
    Ent* e = T; while (e->n && strcmp(e->n, tok)) ++e;
    if (!e->n) { puts("?"); fflush(stdout); continue; }
    void* p[20];
    for (int i = 0; i < e->np; ++i) {
      p[i] = malloc(e->sz[i]); memset(p[i], 0xA5, e->sz[i]);
      tok = strtok(0, " \n"); if (!tok) { puts("?"); exit(3); }
      if (*tok != '-') for (int k = 0; k < e->sz[i]; ++k) ((unsigned char*)p[i])[k] = hx(tok[2*k]) << 4 | hx(tok[2*k+1]);
    }
    e->f(p);
    for (int i = 0; i < e->np; ++i) { for (int k = 0; k < e->sz[i]; ++k) printf("%02x", ((unsigned char*)p[i])[k]); putchar(' '); free(p[i]); }
    putchar('\n'); fflush(stdout);
  }
}''')
    return '\n'.join(s)


SAN = ['-g', '-fsanitize=address,undefined', '-fno-sanitize-recover=all', '-fno-omit-frame-pointer']


class Runner:
    """a compiled executable of the library plus harnesses, kept alive over many calls"""

    def __init__(self, contracts, header, config='debug', san=False, repo=None, fill=None):
        self.contracts = contracts
        kind = ('san' if san else 'plain') + (fill or '')
        tag = '%s-%s-%x' % (config, kind, abs(hash(tuple(c.fn for c in contracts))) & 0xffffff)
        d = os.path.join(extract.scratch(), 'run-' + tag)
        os.makedirs(d, exist_ok=True)
        repo = repo or extract.REPO
        inc = ['-I' + os.path.join(repo, 'include'), '-I' + os.path.join(repo, 'src'), '-include', 'stddef.h']
        flags = extract.GCC + extract.LEVEL.get(config, []) + (SAN if san else []) + (['-ftrivial-auto-var-init=' + fill] if fill else []) + extract.CONFIGS[config] + inc
        ld = os.path.join(extract.scratch(), 'obj-%s-%s' % (config, kind))
        os.makedirs(ld, exist_ok=True)
        jobs, objs = [], []
        for s in extract.sources():
            o = os.path.join(ld, re.sub(r'\W', '_', s) + '.o')
            objs.append(o)
            if not os.path.exists(o): jobs.append((s, flags + ['-c', os.path.join(repo, s), '-o', o]))
        main = os.path.join(d, 'main.cpp')
        with open(main, 'w') as f: f.write(runner_source(contracts, header))
        jobs.append(('runner', flags + ['-c', main, '-o', os.path.join(d, 'main.o')]))
        with ThreadPoolExecutor(8) as ex: res = list(ex.map(lambda j: (j[0], extract.run(j[1])), jobs))
        for n, (rc, so, se) in res:
            if rc: raise BuildError('g++ failed on %s:\n%s' % (n, se[:2000]))
        self.exe = os.path.join(d, 'run')
        rc, so, se = extract.run(['g++'] + (SAN if san else []) + ['-o', self.exe, os.path.join(d, 'main.o')] + objs + ['-lm'])
        if rc: raise BuildError('link failed:\n' + se[:3000])
        self.p = None
        self.err = os.path.join(d, 'stderr')

    def start(self):
        self.p = subprocess.Popen([self.exe], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=open(self.err, 'wb'), bufsize=0,
                                  env=dict(os.environ, ASAN_OPTIONS='detect_leaks=0:abort_on_error=0', UBSAN_OPTIONS='print_stacktrace=0'))

    def call(self, c, vals, timeout=10):
        """vals: {param name: list of python scalars}; returns ('ok', {name: list}) or ('crash', text)"""
        if self.p is None or self.p.poll() is not None: self.start()
        toks = [c.fn]
        for p in params_of(c):
            if p is c.ret or p.mode == 'out': toks.append('-')
            else: toks.append(pack(p, vals[p.name]).hex())
        try:
            self.p.stdin.write((' '.join(toks) + '\n').encode())
            buf = b''
            end = time.time() + timeout
            while not buf.endswith(b'\n'):
                r, _, _ = select.select([self.p.stdout], [], [], max(0, end - time.time()))
                if not r:
                    self.p.kill()
                    self.p.wait()
                    return 'crash', 'no result within %d s' % timeout
                ch = self.p.stdout.read(65536)
                if not ch: break
                buf += ch
        except BrokenPipeError:
            buf = b''
        if not buf.endswith(b'\n'):
            self.p.wait()
            txt = open(self.err, 'rb').read().decode('utf8', 'replace')
            return 'crash', 'exit status %s: %s' % (self.p.returncode, txt[:1500])
        parts = buf.decode().split()
        if parts == ['?']: return 'crash', 'harness missing'
        out = {}
        for p, h in zip(params_of(c), parts):
            out[p.name] = unpack(p, bytes.fromhex(h))
        return 'ok', out

    def close(self):
        if self.p:
            self.p.kill()
            self.p.wait()
            self.p = None


def pack(p, vs):
    if p.kind == 'f': return np.array([float(v) for v in vs], dtype=np.float32).tobytes() if not any(isinstance(v, np.float32) for v in vs) else np.array(vs, dtype=np.float32).tobytes()
    if p.kind == 'B': return bytes(1 if v else 0 for v in vs)
    n = KS[p.kind]
    return b''.join(int(v & ((1 << 8 * n) - 1)).to_bytes(n, 'little') for v in vs)


def unpack(p, b):
    k = KS[p.kind]
    out = []
    for i in range(p.count):
        x = b[i * k:(i + 1) * k]
        if p.kind == 'f': out.append(np.frombuffer(x, dtype=np.float32)[0])
        elif p.kind == 'B': out.append(x[0] if x[0] > 1 else bool(x[0]))
        else: out.append(int.from_bytes(x, 'little'))
    return out


# ------------------------------------------------------------------ evaluating contracts on concrete results
def envof(c, ins, vals):
    env = {}
    for p in c.params:
        if p.mode == 'out': continue
        for t, v in zip(ins[p.name], vals[p.name]):
            if t.op == 'v':
                env[t] = np.float32(v) if p.kind == 'f' else bool(v) if p.kind == 'B' else int(v) & ((1 << 8 * KS[p.kind]) - 1)
    return env


def outvars(c):
    outs = {}
    for p in params_of(c):
        if p.mode == 'in' and p is not c.ret: continue
        outs[p.name] = V(var('out!%s[%d]' % (p.name, i), KSORT[p.kind]) for i in range(p.count))
    return outs


def holds(t, env, eps, memo, pol=True):
    """tolerant real evaluation of a boolean term; pol False = tolerant towards being false"""
    if t.op == 'not': return not holds(t.args[0], env, eps, memo, not pol)
    if t.op == 'and': return all(holds(a, env, eps, memo, pol) for a in t.args)
    if t.op == 'ite' : return holds(t.args[1] if holds(t.args[0], env, 0, memo, pol) else t.args[2], env, eps, memo, pol)
    if t.op in ('feq', 'flt', 'fle'):
        a, b = evalR(list(t.args), env, memo)
        e = eps * (1 + abs(a) + abs(b))
        if not pol: e = -e
        if t.op == 'feq': return abs(a - b) <= e if e >= 0 else abs(a - b) <= 0
        if t.op == 'flt': return a < b + e
        return a <= b + e
    return bool(evalR([t], env, memo)[0])


def samev(a, b, sort, lenient=False):
    if sort in ('f', 'd'):
        if a != a or b != b: return a != a and b != b
        if lenient: return bool(a == b)
        return bitsof(a, sort) == bitsof(b, sort)
    return bool(a == b)


def check_goal(g, env, eps):
    """is the goal true in env (inputs + out! variables)?   returns (True/False/None, got, expected)"""
    kind = g.kind
    if kind in ('same', 'equal', 'auto', 'autol'):
        a, b = evalF([g.lhs, g.rhs], env)
        ok = samev(a, b, g.lhs.sort, kind in ('equal', 'autol'))
        if ok or kind in ('same', 'equal'): return ok, a, b
    if kind == 'true':
        r = evalF([g.lhs], env)[0]
        return bool(r), r, True
    if kind == 'rtrue':
        return holds(g.lhs, env, eps, {}), None, True
    fin = [v for t, v in env.items() if t.sort in ('f', 'd')]
    if any(not math.isfinite(v) for v in fin if not isinstance(v, mpf)):
        # a non-finite result where the specification is finite
        sp = {t: v for t, v in env.items() if not t.args[0].startswith('out!')}
        if any(not math.isfinite(v) for t, v in sp.items() if t.sort in ('f', 'd')): return None, None, None
        if g.lhs.op != 'v':
            # inputs finite, the results in the goal not: for the caller to compare with the code's value over the reals
            bad = [t for x in (g.lhs, g.rhs) for t in free_vars(x) if t.args[0].startswith('out!') and not isinstance(env[t], mpf) and not math.isfinite(env[t])]
            return (False, 'not finite', 'finite') if bad and all(abs(v) < 1e3 for t, v in sp.items() if t.sort in ('f', 'd')) else (None, None, None)
        b = evalR([g.rhs], sp)[0]
        if b is None or abs(b) > 1e30: return None, None, None
        a = env[g.lhs]
        if math.isfinite(a): return bool(abs(a - b) <= eps * (1 + abs(b))), a, b
        return False, a, b
    a, b = evalR([g.lhs, g.rhs], env)
    if not isinstance(a, (mpf, float, int)): return None, a, b
    sc = 1 + abs(b)
    for v in fin: sc = max(sc, min(abs(v), 1e4))
    return bool(abs(a - b) <= eps * sc), a, b


SPECIAL_F = [0.0, -0.0, 1.0, -1.0, 0.5, -0.5, 1.5, 2.5, -1.5, 2.0, -2.0, 3.0, 0.25, 1e-3, 1e-6, 1e-20, 1e-42, 123.456, -7.25, 1e6, 16777217.0, 1e20, 3.4028235e38, -3.4028235e38,
             float('inf'), float('-inf'), float('nan'), 4.5, 0.49999997, 8388609.0, -0.49999997, 0.0031308, 0.04045]
SPECIAL_I = [0, 1, -1, 2, 3, 7, -5, 31, 32, 100, 255, 256, 65535, 2 ** 31 - 1, -2 ** 31, 123456789, -987654]


def consts_of(ts):
    fs, isv = set(), set()
    for x in subterms(ts):
        if x.op == 'c':
            if x.sort == 'f': fs.add(fval(x))
            elif isinstance(x.sort, int) and x.sort >= 32: isv.add(sgn(x.args[0], x.sort))
    return sorted(f for f in fs if f == f)[:60], sorted(isv)[:60]


def near(x):
    y = np.float32(x)
    return [float(y), float(np.nextafter(y, np.float32(np.inf))), float(np.nextafter(y, np.float32(-np.inf))), -float(y)]


def shaped(p, rng, seen):
    """one value of parameter p with structure that independent components never have"""
    n = p.count
    nice = lambda: rng.choice((1., -1., 2., -2., .5, -.5, 0., 3., -3., rng.uniform(-2, 2)))
    if p.kind == 'B': return [rng.random() < .5] * n
    if p.kind != 'f':
        x = rng.choice((0, 1, -1, 2, 3, 7, -8, rng.randint(-40, 40)))
        if p.kind == 'q': x %= 2 ** 64
        return [x] * n
    same = [v for v in seen if len(v) == n]
    m = rng.randrange(8)
    side = int(round(n ** .5)) if n in (4, 9, 16) else 0
    if same and m == 0: return list(rng.choice(same))
    if same and m == 1: return [-x for x in rng.choice(same)]
    if same and m == 2:
        k = nice()
        return [k * x for x in rng.choice(same)]
    if side and (n > 4 or m > 4):
        d = [nice() for _ in range(side)]
        if rng.random() < .5: d = [d[0]] * side
        perm = list(range(side))
        if rng.random() < .3: rng.shuffle(perm)
        v = [0.] * n
        for i in range(side): v[i * side + perm[i]] = d[i]
        if side == 4:
            v[15] = 1. if rng.random() < .8 else v[15]
            if rng.random() < .7: v[12:15] = [nice() for _ in range(3)]
        if m == 7: v = [nice() for _ in range(side)] * side
        return v
    if n > 1 and m in (3, 4):
        v = [0.] * n
        v[rng.randrange(n)] = nice()
        return v
    if n > 1 and m == 5:
        x = nice()
        return [rng.choice((x, -x)) for _ in range(n)]
    if n > 1 and m == 6: return [nice()] * n
    return [nice() for _ in range(n)]


def structured(c, rng):
    vals, seen = {}, []
    for p in c.params:
        if p.mode == 'out': continue
        v = [float(np.float32(x)) if p.kind == 'f' else x for x in shaped(p, rng, seen)]
        if p.kind == 'f': seen.append(v)
        vals[p.name] = v
    return vals


def candidates(c, rng, n, consts=((), ()), finite=False):
    """random and special concrete inputs"""
    cf = [v for x in consts[0] for v in near(x)]
    ci = list(consts[1])
    fpool = [x for x in SPECIAL_F if not finite or (math.isfinite(x) and abs(x) < 1e7 and (abs(x) > 1e-7 or x == 0))]
    cf = [x for x in cf if not finite or (math.isfinite(x) and abs(x) < 1e7)]
    for k in range(n):
        if c.sample is not None:
            r = c.sample(rng)
            vals = {}
            ps = [p for p in c.params if p.mode != 'out']
            if isinstance(r, dict): r = [r[p.name] for p in ps]
            for p, v in zip(ps, r): vals[p.name] = list(v) if isinstance(v, (list, tuple)) else [v]
            yield vals
            continue
        mode = k % 8
        if mode > 5:
            yield structured(c, rng)
            continue
        vals = {}
        base = rng.choice(fpool)
        for p in c.params:
            if p.mode == 'out': continue
            vs = []
            for i in range(p.count):
                if p.kind == 'f':
                    if mode == 0: x = rng.uniform(-2, 2)
                    elif mode == 1: x = rng.choice(fpool)
                    elif mode == 2: x = rng.choice(cf) if cf else rng.uniform(0, 1)
                    elif mode == 3: x = rng.choice([base, rng.choice(fpool), rng.uniform(-1, 1)])
                    elif mode == 4: x = rng.uniform(0, 1)
                    else: x = rng.choice(cf + fpool) if rng.random() < .5 else rng.gauss(0, 10)
                    vs.append(float(np.float32(x)))
                elif p.kind == 'B': vs.append(rng.random() < .5)
                elif p.kind == 'q': vs.append(rng.getrandbits(64))
                else:
                    if mode in (0, 3): x = rng.randint(-40, 40)
                    elif mode == 1: x = rng.choice(SPECIAL_I)
                    elif mode == 2 and ci: x = rng.choice(ci)
                    elif mode == 4: x = rng.randint(0, 3)
                    else: x = rng.randint(-2 ** 31, 2 ** 31 - 1)
                    vs.append(x)
            vals[p.name] = vs
        yield vals


def reqs_ok(c, ins, reqs, env, real, eps=1e-5):
    try:
        for r in reqs:
            if real:
                if not holds(r, env, eps, {}): return False
            elif not evalF([r], env)[0]: return False
    except EvalError:
        return False
    return True


def show_vals(v):
    if isinstance(v, dict): return {k: show_vals(x) for k, x in v.items()}
    if isinstance(v, (list, tuple)): return [show_vals(x) for x in v]
    if isinstance(v, (np.floating, float)): return repr(float(v))
    if isinstance(v, mpf): return mpmath.nstr(v, 12)
    if isinstance(v, np.integer): return int(v)
    return v
