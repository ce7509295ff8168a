"""C30: every declared operation is provided: {documented precondition} f {returns}, for every function the public headers declare.

The contracts are derived mechanically, on every run, from clang's syntax tree of the headers: one per declared function,
operator, constructor and member function.  The obligation needs the body of f and of everything it calls; a declaration without
a definition in the sources listed in CMakeLists.txt leaves it undischarged."""
import json, os, re, sys, time, subprocess
from concurrent.futures import ThreadPoolExecutor
from .util import *

MERGE = False
CONFIGS = ('debug', 'release', 'noswizzle', 'plain', 'release-noswizzle')
KINDS = ('FunctionDecl', 'CXXMethodDecl', 'CXXConstructorDecl', 'CXXDestructorDecl', 'CXXConversionDecl')
ASSUMPTIONS = ['the C and C++ runtime libraries provide the functions they document', 'value preconditions and safety on these paths are C28']
NAMES_OF = {v[0]: k for k, v in TYPES.items()}
NAMES_OF.update({'unsigned int': 'uint', 'unsigned long': 'size_t', 'int32_t': 'int', 'uint32_t': 'uint', 'int': 'int'})
POINTEES = {'make_' + k: v[2] for k, v in TYPES.items() if v[0].startswith('zcm::')}
for k in list(TYPES):
    if TYPES[k][0].startswith('zcm::'): NAMES_OF[k] = k


class Decl:
    def __init__(self, key):
        self.key, self.body, self.where, self.qual, self.type, self.kind = key, False, '', '', '', ''


def dump(cfg, filt):
    from zv import driver, extract
    f = os.path.join(extract.scratch(), 'decls.cpp')
    with open(f, 'w') as h: h.write(driver.header_text())
    p = subprocess.run(['clang++', '-std=c++14', '-fsyntax-only', '-w', '-I' + extract.REPO + "/include"] + extract.LEVEL.get(cfg, []) + extract.CONFIGS[cfg] + ['-Xclang', '-ast-dump=json', '-Xclang', '-ast-dump-filter=' + filt, f],
                       stdout=subprocess.PIPE, stderr=subprocess.PIPE, universal_newlines=True)
    if p.returncode: raise extract.BuildError('headers do not compile (%s):\n%s' % (cfg, p.stderr[:3000]))
    dec, txt, i, out = json.JSONDecoder(), p.stdout, 0, []
    while i < len(txt):
        while i < len(txt) and txt[i].isspace(): i += 1
        if i >= len(txt): break
        if txt[i] != '{':                      # a line of the dumper itself
            i = txt.find('\n', i) + 1 or len(txt)
            continue
        o, i = dec.raw_decode(txt, i)
        out.append(o)
    return out


def declarations(cfg):
    """{mangled name: Decl} of the functions declared in the public headers"""
    from zv import extract
    inc = os.path.join(extract.REPO, 'include') + os.sep
    found, pattern = {}, {}
    state = {'file': '', 'line': 0}

    def see(l):
        for k in ('spellingLoc', 'expansionLoc'):
            if k in l: see(l[k])
        if 'file' in l: state['file'] = l['file']
        if 'line' in l: state['line'] = l['line']

    def has_body(n): return any(x.get('kind') in ('CompoundStmt', 'CXXTryStmt') for x in n.get('inner', ()))

    def walk(n, path, intemplate, ts):
        if not isinstance(n, dict): return
        if 'loc' in n: see(n['loc'])
        here = '%s:%s' % (state['file'], state['line'])
        off = (state['file'], (n.get('loc') or {}).get('offset', ((n.get('loc') or {}).get('expansionLoc') or {}).get('offset')), (n.get('loc') or {}).get('spellingLoc', {}).get('offset'))
        for r in ('begin', 'end'):
            if r in n.get('range', {}): see(n['range'][r])
        k = n.get('kind')
        if k in KINDS:
            if off[0].startswith(inc):
                body = has_body(n) or n.get('explicitlyDefaulted')
                key = n.get('mangledName')
                if not n.get('isImplicit') and not n.get('explicitlyDeleted') and (intemplate or key):
                    if intemplate: pattern[off] = pattern.get(off, False) or bool(body)
                    else:
                        d = found.setdefault(key, Decl(key))
                        d.body = d.body or bool(body)
                        d.pat = off if ts else None
                        if not d.where:
                            d.where, d.kind, d.name, d.type, d.path = here.replace(inc, 'include/'), k, n.get('name', ''), n['type']['qualType'], list(path)
                            d.params = [x['type'].get('desugaredQualType', x['type']['qualType']) for x in n.get('inner', ()) if x.get('kind') == 'ParmVarDecl']
                            d.virtual = n.get('virtual')
            return
        sub = path + [n['name']] if k in ('NamespaceDecl', 'CXXRecordDecl', 'ClassTemplateSpecializationDecl') and n.get('name') else path
        if k == 'FunctionTemplateDecl' or k == 'ClassTemplatePartialSpecializationDecl': return
        if k == 'ClassTemplateDecl':
            for x in n.get('inner', ()):
                if x.get('kind') == 'CXXRecordDecl': walk(x, sub, True, False)
                else: walk(x, sub, False, True)
            return
        for x in n.get('inner', ()): walk(x, sub, intemplate, ts or (k == 'ClassTemplateSpecializationDecl' and not n.get('explicit')))
    for filt in ('zcm', 'std::hash'):
        for o in dump(cfg, filt): walk(o, [], False, False)
    for d in found.values():
        if d.pat is not None and not d.body: d.body = pattern.get(d.pat, False)
    return found


def strip(t): return re.sub(r'\b(const|struct|class|volatile)\b', '', t).replace('&', '').strip()


def client(d):
    """a contract whose client code uses the declaration, or None when its types are outside the contract language"""
    if d.kind == 'CXXDestructorDecl': return None
    full = d.path
    in_rec = d.kind != 'FunctionDecl'
    ps, args = [], []

    def param(t, nm, mode):
        b = strip(t)
        b = b.replace('zcm::', '') if b.startswith('zcm::') else b
        if b == 'no_init_t': return 'zcm::no_init_t{}'
        n = ''
        if b.endswith('*') and 'const' in t and d.name in POINTEES:
            b, n = b[:-1].strip(), '*%d' % POINTEES[d.name]
        k = NAMES_OF.get(b) or NAMES_OF.get('zcm::' + b)
        if k is None or '*' in b: return None
        mode = n + mode
        ps.append('%s:%s%s' % (nm, k, mode))
        return nm
    ret = re.match(r'(.*?)\s*\(', d.type).group(1) if d.kind == 'CXXMethodDecl' or d.kind == 'FunctionDecl' else None
    if in_rec and full and full[0] != 'zcm': return None
    if in_rec and len(full) != 2: return None
    cls = full[-1] if in_rec else None
    if d.kind in ('CXXMethodDecl', 'CXXConversionDecl'):
        if param(cls, 'self', '' if re.search(r'\)\s*const', d.type) else '&') is None: return None
    for i, t in enumerate(d.params):
        out = '&' in t and 'const' not in t
        a = param(t, 'a%d' % i, '&' if out else '')
        if a is None: return None
        args.append(a)
    q = '::'.join(full)
    if d.kind == 'CXXConstructorDecl': call = '%s(%s)' % (q, ', '.join(args))
    elif d.kind == 'FunctionDecl': call = '%s::%s(%s)' % (q, d.name, ', '.join(args))
    elif d.kind == 'CXXConversionDecl':
        b = strip(re.match(r'(.*?)\s*\(', d.type).group(1))
        k = NAMES_OF.get(b)
        if k is None: return None
        call = 'self.operator %s()' % TYPES[k][0]
    else: call = 'self.%s(%s)' % (d.name, ', '.join(args))
    return Contract('decl_' + re.sub(r'\W', '_', d.key), '(void)(%s);' % call, ', '.join(ps), stmt=True, theory='F', ensures=lambda *a: [])


def check(tier, seed):
    from zv import driver, verify as vf, extract
    from zv.contract import execute
    from zv.execir import Undecided
    import zv.modular as modular
    t0 = time.time()
    out = driver.Outcome()
    live, reps, libs = [], [], set()
    funs = set()
    kf = [e for e in driver.known_findings() if e.get('status') == 'finding' and e['property'] == 'C30']
    stats = {'declared': {}, 'executed': {}, 'existence_only': {}}
    sigs = {}
    for cfg in CONFIGS:
        decls = declarations(cfg)
        if not decls: raise RuntimeError('no declarations found')
        cs = {}
        for k, d in decls.items():
            c = client(d)
            if c is not None: cs[k] = c
        # clients that compile and call exactly this declaration
        ok, prog = compile_clients(driver, extract, cfg, cs)
        stats['declared'][cfg], stats['executed'][cfg] = len(decls), len(ok)
        ins = {}

        def one(_, c):
            r = vf.Report(c)
            try:
                vc = execute(prog, c, c.inputs())
                r.functions, r.libcalls = set(vc.ex.inlined), set(vc.ex.libcalls)
                if not vc.returns and not any(o.kind in ('assertion', 'abort') for o in vc.obls): raise Undecided('no normal return')
                r.obs.append(vf.Ob('x', 'provided', 'proved', 'evaluation of addresses'))
            except (Undecided, RecursionError) as e: r.obs.append(vf.Ob('x', 'provided', 'unknown', None, str(e)))
            return r
        keys = sorted(ok)
        rs = dict(zip(keys, driver.parallel(prog, [ok[k] for k in keys], one)))
        for k in sorted(decls):
            d = decls[k]
            r = rs.get(k)
            if r is not None and getattr(r, 'error', None):
                out.errors.append(r.error[-800:])
                continue
            name = driver.demangle(k)
            if r is None or r.failed():
                # no verification condition for the whole call: at least the body itself must exist
                why = r.obs[0].why if r else ''
                there = d.body or prog.lookup(prog.mods[0], '@' + k) is not None or prog.lookup(prog.mods[0], '@"%s"' % k) is not None
                missing = re.match(r'call to external function (\S+)', why)
                if missing and missing.group(1).lstrip('@').startswith('_ZN') and '3zcm' in missing.group(1): there = False
                r2 = vf.Report(live[0] if live else Contract('x', 'x'))
                if r: r2.functions, r2.libcalls = r.functions, r.libcalls
                r2.obs.append(vf.Ob('x', 'provided', 'proved' if there else 'refuted', 'definition present' if there else None, '' if there else 'declared at %s, no definition in the library: %s' % (d.where, why or name)))
                stats['existence_only'][cfg] = stats['existence_only'].get(cfg, 0) + 1
                r = r2
            r.obs[0].name = '%s/provided@%s' % (name, cfg)
            r.obs[0].text = d.where
            r.id = k
            r.config = cfg
            sigs.setdefault(k, (d, name))
            c = cs.get(k) or Contract('decl_' + re.sub(r'\W', '_', k), name, stmt=True)
            if r.failed():
                kk = [e for e in kf if k in e['contracts']]
                if kk and d.where.split(':')[0] == kk[0]['file']:
                    if kk[0]['text'] not in out.known: out.known.append(kk[0]['text'])
                    continue
            live.append(c)
            reps.append(r)
    obl = sum(len(r.obs) for r in reps)
    bad = {}
    for c, r in zip(live, reps):
        funs |= r.functions
        libs |= r.libcalls
        if r.failed() and r.id not in bad: bad[r.id] = (c, r)
    for n, (k, (c, r)) in enumerate(sorted(bad.items())[:8]):
        w = link_witness(driver, extract, k, sigs[k], r.config)
        path = driver.write_replay('C30', c, r, w, r.config, n)
        print('failed obligation: %s [%s] %s' % (r.obs[0].name, r.obs[0].status, r.obs[0].why[:300]))
        out.violations.append('VIOLATION property=C30 replay=%s%s' % (path, '' if w else ' no-failing-input-found'))
    be = {}
    for r in reps:
        for o in r.obs:
            if o.status == 'proved': be[o.backend] = be.get(o.backend, 0) + 1
    # negative control: a declaration that has no definition must not be dischargeable
    ctl = control(driver, extract, vf, execute, Undecided)
    if not ctl: out.errors.append('negative control: a function without a body was discharged')
    ev = {'obligations': obl, 'discharged': sum(be.values()), 'contracts': len(sigs), 'checker_cmd': 'python3-vt check.py C30', 'trusted_base': driver.TRUSTED[:2] + ['clang AST dump of the public headers'],
          'backends': be, 'declarations': stats['declared'], 'bodies_executed_symbolically': stats['executed'], 'existence_only': stats['existence_only'],
          'functions_under_contract_count': len(funs), 'library_functions_assumed': sorted(libs), 'negative_controls_rejected': int(ctl), 'configurations': list(CONFIGS),
          'sample_contracts': [{'declaration': n, 'where': d.where} for d, n in list(sigs.values())[:5]], 'assumptions': list(ASSUMPTIONS)}
    return driver.finish('C30', tier, seed, t0, ev, out)


def compile_clients(driver, extract, cfg, cs):
    import zv.modular as modular
    head = driver.header_text()
    keys = sorted(cs)
    for attempt in range(6):
        n = max(1, min(8, len(keys) // 40))
        tus = {'d%d_%s' % (i, cfg): head + '\n'.join(cs[k].harness() for k in keys[i::n]) for i in range(n)}
        try: prog = extract.compile_ir(cfg, tus)
        except extract.BuildError as e:
            if not re.search(r'clang failed on d\d', str(e)): raise
            def one(k):
                f = os.path.join(extract.scratch(), 'y_%s_%d.cpp' % (cfg, keys.index(k)))
                with open(f, 'w') as h: h.write(head + cs[k].harness())
                return k, extract.run(['clang++', '-std=c++14', '-fsyntax-only', '-w', '-I' + extract.REPO + "/include"] + extract.LEVEL.get(cfg, []) + extract.CONFIGS[cfg] + [f])[0]
            # bisect by groups, then singly
            with ThreadPoolExecutor(8) as ex: res = list(ex.map(one, keys))
            keys = [k for k, rc in res if rc == 0]
            continue
        ok = {}
        for k in keys:
            f = prog.extern.get('@H_' + cs[k].fn)
            if f is not None and any(s and s.lstrip('@').strip('"') in (k, k.replace('C1', 'C2')) for s in modular.callees(f)): ok[k] = cs[k]
        return ok, prog
    raise RuntimeError('clients do not compile')


def link_witness(driver, extract, k, sig, cfg):
    """a program that uses the declaration and does not link (real compiler, real linker)"""
    from zv import replay
    d, name = sig
    c = client(d)
    if c is None: return None
    try:
        replay.Runner([c], driver.header_text(), cfg).close()
        return None
    except extract.BuildError as e:
        if 'undefined reference' in str(e):
            return {'inputs': 'any program containing: ' + c.cxx, 'configuration': cfg, 'observed': 'does not link: ' + re.sub(r'\s+', ' ', str(e))[:500], 'expected': 'the declared operation is provided', 'declared': d.where}
    return None


def control(driver, extract, vf, execute, Undecided):
    c = Contract('control_undefined', 'undefined_function_(a);', 'a:float', stmt=True, ensures=lambda *a: [])
    prog = extract.compile_ir('debug', {'ctl': driver.header_text() + 'float undefined_function_(float);\n' + c.harness()})
    try: execute(prog, c, c.inputs())
    except Undecided: return True
    return False
