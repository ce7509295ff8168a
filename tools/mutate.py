"""Mutation campaign: python3-vt tools/mutate.py N [file ...]  (J = jobs, SEED = seed).

Draws N token-level changes of /repo's sources, drops those the optimiser proves equivalent (same -O2 code) and those that do not compile,
and runs the checks concerned on a scratch copy with the change applied.  Prints KILLED / SURVIVED / QUIET-ERROR with the change."""
import sys, os, re, random, shutil, subprocess, time, json
from concurrent.futures import ThreadPoolExecutor
from queue import Queue
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
FILES = {
    'angle_and_trigonometry': 'C10', 'bvec': 'C03 C04 C05 C06', 'color_space': 'C26', 'common': 'C08 C09 C03 C02', 'component_wise': 'C11', 'constants': 'C27',
    'exponential': 'C10', 'geometric': 'C12 C13 C14', 'hash': 'C07 C06', 'ivec': 'C02 C04 C06 C05 C03', 'mat2': 'C16 C15 C06', 'mat3': 'C16 C15 C06', 'mat4': 'C16 C15 C06',
    'matrix_transform': 'C18 C19 C20 C21', 'matrix.cpp': 'C17 C16', 'matrix.hpp': 'C17', 'quat.': 'C22 C24 C23 C06 C04 C15', 'quaternion': 'C12 C22 C23 C24 C25 C20', 'type_ptr': 'C04 C15',
    'vec2_access': 'C05', 'vec3_access': 'C05', 'vec4_access': 'C05', 'vec': 'C01 C04 C06 C05', 'impl_op': 'C05', 'init': 'C04 C15 C22',
}
REST = ['C28', 'C29', 'C30']
SWAP = {'+': ['-'], '-': ['+'], '*': ['/', '+'], '/': ['*'], '<': ['<=', '>'], '<=': ['<', '>='], '>': ['>=', '<'], '>=': ['>', '<='], '==': ['!='], '!=': ['=='], '&&': ['||'], '||': ['&&'], '+=': ['-='], '-=': ['+='],
        '*=': ['/='], '/=': ['*='], '&': ['|'], '|': ['&', '^'], '^': ['|'], '<<': ['>>'], '>>': ['<<'], '++': ['--'], '--': ['++'], '%': ['/'], '&=': ['|='], '|=': ['&='], '^=': ['|='], '<<=': ['>>='], '>>=': ['<<='], '%=': ['/=']}
WORD = {'sin': 'cos', 'cos': 'sin', 'min': 'max', 'max': 'min', 'floor': 'ceil', 'ceil': 'floor', 'round': 'floor', 'trunc': 'floor', 'asin': 'acos', 'acos': 'asin', 'sinh': 'cosh', 'cosh': 'sinh', 'tan': 'tanh', 'tanh': 'tan', 'exp': 'exp2', 'exp2': 'exp', 'log': 'log2', 'log2': 'log',
        'sqrt': 'abs', 'abs': '', 'true': 'false', 'false': 'true', 'x': 'yzw', 'y': 'xzw', 'z': 'xyw', 'w': 'xyz', 'r': 'gb', 'g': 'rb', 'b': 'rg', 'normalize': '', 'length': 'length2', 'cross': 'reflect', 'length2': 'length', 'inverse': 'transpose', 'isnan': 'isinf', 'lessThan': 'lessThanEqual', 'float': '', 'const': ''}
TOK = re.compile(r'//[^\n]*|/\*.*?\*/|"(?:\\.|[^"\\])*"|\'(?:\\.|[^\'\\])\'|^[ \t]*#(?:[^\n]*\\\n)*[^\n]*|0[xX][0-9a-fA-F]+[uUlL]*|(?:\d+\.\d*|\.\d+|\d+)(?:[eE][-+]?\d+)?[fFuUlL]*|[A-Za-z_]\w*|<<=|>>=|\+\+|--|->|::|<=|>=|==|!=|&&|\|\||[-+*/%&|^]=|<<|>>|\S', re.S | re.M)


def tokens(s): return [(m.start(), m.end(), m.group()) for m in TOK.finditer(s) if not m.group().startswith(('//', '/*')) and not m.group().lstrip().startswith('#')]


def mutants(path, s):
    out = []
    tk = tokens(s)
    depth = 0
    body = []
    # token index ranges of function bodies: braces opened after ')' or ') const/noexcept'
    stack = []
    for i, (a, b, t) in enumerate(tk):
        if t == '{':
            j = i - 1
            while j >= 0 and tk[j][2] in ('const', 'noexcept', 'override'): j -= 1
            stack.append((i, tk[j][2] in (')', 'else', 'do')))
        elif t == '}' and stack:
            i0, fn = stack.pop()
            if not stack or (fn and not any(f for _, f in stack)): pass
            if fn and not any(f for _, f in stack): body.append((i0, i))
    for i0, i1 in body:
        # parameters of the function
        j = i0
        while tk[j][2] != '(' and j > 0: j -= 1
        q = j
        while q > 0 and tk[q][2] not in (';', '{', '}'):
            if tk[q][2] == ':' and tk[q - 1][2] in (')', 'noexcept'):     # constructor with initialisers
                i0 = j = q
                while tk[j][2] != '(': j -= 1
                break
            q -= 1
        params = [tk[k][2] for k in range(j, i0) if tk[k + 1][2] in (',', ')', '=') and re.match(r'[A-Za-z_]\w*$', tk[k][2])]
        for k in range(i0 + 1, i1):
            a, b, t = tk[k]
            prev, nxt = tk[k - 1][2], tk[k + 1][2]
            if t in SWAP:
                if t in '&*' and not (re.match(r'[\w)\]]', prev[-1]) and prev not in ('return', 'auto', 'float', 'int', 'bool', 'const') and re.match(r'[\w(.]', nxt)): continue
                if t in ('<', '>') and ('template' in s[max(0, a - 40):a] or '_cast' in s[max(0, a - 30):a + 1]): continue
                if t in ('+', '-') and prev in ('(', ',', '=', 'return', '{', '?', ':', '*', '/', '+', '-', '<', '>', '&&', '||'):
                    out.append((a, b, '' if t == '-' else '-'))
                    continue
                for n in SWAP[t]: out.append((a, b, n))
            elif re.match(r'[\d.]', t) and re.search(r'\d', t) and prev != '.':
                m = re.match(r'([\d.eE]+(?:[-+]\d+)?)([fFuUlL]*)$', t)
                if not m: continue
                v, suf = m.groups()
                if '.' in v or 'e' in v.lower():
                    x = float(v)
                    for y in ({0.0: [1.0], 1.0: [0.0, 0.999], .5: [.25, .501]}.get(x, [x * 1.001, x * 2])): out.append((a, b, repr(float(y)) + ('f' if 'f' in suf else '')))
                else:
                    x = int(v)
                    for y in ([1] if x == 0 else [x - 1, x + 1]): out.append((a, b, str(y) + suf))
            elif prev == '.' and t in WORD and len(t) == 1:
                for n in WORD[t]: out.append((a, b, n))
            elif prev == '.' and re.match(r'[xyzwrgbastpq]{2,4}$', t) and nxt != '(': out.append((a, b, t[1:] + t[0]))
            elif t in WORD and len(t) > 1 and nxt == '(' and WORD[t]: out.append((a, b, WORD[t]))
            elif t in ('abs', 'sqrt', 'normalize', 'fabs') and nxt == '(': out.append((a, b, ''))
            elif t in ('true', 'false'): out.append((a, b, WORD[t]))
            elif t in params and nxt not in ('(', '::') and prev not in ('.', '->', '::'):
                for n in sorted(set(params) - {t}): out.append((a, b, n))
            elif t == '!' and nxt not in ('=',): out.append((a, b, ''))
            elif t == ';' and prev != ')' or t == ';':
                # delete the statement that ends here
                q = k - 1
                d = 0
                while q > i0 and not (d == 0 and tk[q][2] in (';', '{', '}')):
                    if tk[q][2] in ')]': d += 1
                    if tk[q][2] in '([': d -= 1
                    if d < 0: break
                    q -= 1
                if d == 0 and tk[q + 1][2] not in ('return', 'auto', 'const', 'float', 'int', 'for', 'vec3', 'vec4', 'vec2', 'mat3', 'mat4', 'quat', 'bool', 'if', 'else', 'while') and q + 1 < k: out.append((tk[q + 1][0], a, ''))
    return sorted(set(out))


def main():
    n = int(sys.argv[1])
    J = int(os.environ.get('J', '3'))
    rng = random.Random(os.environ.get('SEED', '1'))
    files = sys.argv[2:]
    if not files:
        files = ['src/' + f for f in sorted(os.listdir('/repo/src')) if f.endswith('.cpp')] + ['include/zcm/' + f for f in sorted(os.listdir('/repo/include/zcm')) if f.endswith('.hpp')]
    allm = []
    for f in files:
        s = open('/repo/' + f).read()
        allm += [(f, s) + m for m in mutants(f, s)]
    print('mutants available: %d' % len(allm), flush=True)
    # stratify: shuffle within each file, draw files in proportion to the square root of their size
    by = {}
    for m in allm: by.setdefault(m[0], []).append(m)
    pick = []
    tot = sum(len(v) ** .5 for v in by.values())
    for f, v in sorted(by.items()):
        rng.shuffle(v)
        pick += v[:max(1, round(n * len(v) ** .5 / tot))]
    rng.shuffle(pick)
    rooms = Queue()
    for k in range(J):
        root = '/tmp/pl/mu-%d-%d' % (os.getpid(), k)
        shutil.rmtree(root, ignore_errors=True)
        os.makedirs(root)
        subprocess.run(f'git -C /repo archive HEAD --prefix=repo/ | tar x -C {root}; cd {HERE} && git archive HEAD --prefix=verif/ | tar x -C {root} --exclude=verif/seeded', shell=True, check=True)
        rooms.put(root)
    base = {}

    def obj(root, f):
        """-O2 code of the translation unit (or of one including the header)"""
        src = f'{root}/repo/{f}'
        if f.endswith('.hpp'):
            src = f'{root}/all.cpp'
            open(src, 'w').write(''.join('#include <zcm/%s>\n' % h for h in sorted(os.listdir(f'{root}/repo/include/zcm')) if h.endswith('.hpp')))
        p = subprocess.run(f'clang++ -std=c++14 -O{0 if f.endswith(".hpp") else 2} {"-fkeep-inline-functions -fno-discard-value-names" if f.endswith(".hpp") else ""} -w -ffp-contract=off -I{root}/repo/include -I{root}/repo/src -include stddef.h -S -emit-llvm -o - {src}', shell=True, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL)
        if p.returncode: return None
        return re.sub(rb'(source_filename|; ModuleID).*', b'', p.stdout).replace(root.encode(), b'')

    def one(m):
        f, s, a, b, new = m
        root = rooms.get()
        try:
            p = f'{root}/repo/{f}'
            if f not in base: base[f] = obj(root, f)
            with open(p, 'w') as h: h.write(s[:a] + new + s[b:])
            ln = s.count('\n', 0, a) + 1
            l0 = s.rfind('\n', 0, a) + 1
            l1 = s.find('\n', b)
            what = '%s:%d: %s  =>  %s' % (f, ln, s[l0:l1].strip(), (s[l0:a] + '«' + new + '»' + s[b:l1]).strip())
            try:
                o = obj(root, f)
                if o is None: return 'NOCOMPILE', what, '', 0
                if o == base[f]: return 'EQUIVALENT', what, '', 0
                key = next(k for k in FILES if k in f)
                t = time.time()
                errs = ''
                rest = ['C%02d' % i for i in range(1, 28)] if os.environ.get('ALL') else []
                for c in list(dict.fromkeys(FILES[key].split() + rest + REST)):
                    q = subprocess.run(f'ZCM_REPO={root}/repo timeout 900 python3-vt check.py {c}', shell=True, cwd=root + '/verif', stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
                    v = [l for l in q.stdout.splitlines() if 'VIOLATION' in l]
                    if q.returncode == 1 and v: return 'KILLED', what, c + (' no-input' if all(l.endswith('found') for l in v) else ''), time.time() - t
                    if q.returncode: errs += ' %s rc=%d %s' % (c, q.returncode, q.stdout[-200:])
                return 'SURVIVED', what, errs, time.time() - t
            finally:
                with open(p, 'w') as h: h.write(s)
        finally: rooms.put(root)
    cnt = {}
    with ThreadPoolExecutor(J) as ex:
        for st, what, c, t in ex.map(one, pick):
            cnt[st] = cnt.get(st, 0) + 1
            print('%s [%s] %.0fs %s' % (st, c, t, what), flush=True)
    print(cnt)
    for k in range(J): shutil.rmtree('/tmp/pl/mu-%d-%d' % (os.getpid(), k), ignore_errors=True)


if __name__ == '__main__': main()
