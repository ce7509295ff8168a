"""Mechanical extraction: compile /repo's sources (and the harness) to LLVM IR with clang; also the gcc replay library."""
import os, re, subprocess, sys, hashlib, tempfile, shutil, time
from concurrent.futures import ThreadPoolExecutor
from .ir import Program, Undecided

REPO = os.environ.get('ZCM_REPO', '/repo')
CONFIGS = {
    'debug': [],
    'release': ['-DNDEBUG', '-DZCM_RELEASE_BUILD'],
    'noswizzle': ['-DZCM_DISABLE_SWIZZLE'],
    'plain': ['-DZCM_RELEASE_BUILD'],                                   # CMake without a build type: release code, assertions on
    'release-noswizzle': ['-DNDEBUG', '-DZCM_RELEASE_BUILD', '-DZCM_DISABLE_SWIZZLE'],
}
# the release builds are optimised, which the text can see (__OPTIMIZE__)
LEVEL = {'release': ['-O2'], 'release-noswizzle': ['-O2']}
# functions are never optimised: what is analysed is the front end's translation of the source
CLANG = ['clang++', '-std=c++14', '-O0', '-ffp-contract=off', '-fno-discard-value-names', '-w', '-S', '-emit-llvm']
GCC = ['g++', '-std=c++14', '-O0', '-fPIC', '-w']


class BuildError(Exception):
    pass


_scratch = None


def scratch():
    global _scratch
    if _scratch is None:
        _scratch = tempfile.mkdtemp(prefix='zcmvc.')
        import atexit
        atexit.register(lambda: shutil.rmtree(_scratch, ignore_errors=True))
    return _scratch


def sources():
    """the translation units of the library, as CMakeLists.txt lists them"""
    txt = open(os.path.join(REPO, 'CMakeLists.txt')).read()
    m = re.search(r'add_library\(\s*zcm\s+(?:STATIC|SHARED|OBJECT)?\s*([^)]*)\)', txt)
    out = []
    if m:
        for w in re.sub(r'#.*', '', m.group(1)).split():
            if w.endswith(('.cpp', '.cc', '.cxx', '.c')): out.append(w)
    if not out:
        out = sorted('src/' + f for f in os.listdir(os.path.join(REPO, 'src')) if f.endswith('.cpp'))
    return out


def run(cmd):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, universal_newlines=True)
    return p.returncode, p.stdout, p.stderr


def headers():
    d = os.path.join(REPO, 'include', 'zcm')
    return sorted('zcm/' + f for f in os.listdir(d) if f.endswith('.hpp'))


_dirs = None


def search_dirs():
    """g++'s system include directories, longest first"""
    global _dirs
    if _dirs is None:
        p = subprocess.run(['g++', '-std=c++14', '-E', '-v', '-x', 'c++', os.devnull], stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, universal_newlines=True)
        m = re.search(r'search starts here:\n(.*?)End of search list', p.stderr, re.S)
        ds = [os.path.normpath(x.strip()) for x in (m.group(1) if m else '').splitlines() if x.startswith(' ')]
        _dirs = sorted(ds, key=lambda d: -len(d))
    return _dirs


def preprocess(src, flags, out):
    """the project's text exactly as g++, the compiler the project is built with, preprocesses it; system headers stay
    #includes (clang cannot read the ones g++ expanded with its own builtins).  False: not possible"""
    rc, text, err = run(['g++', '-std=c++14', '-w', '-E'] + flags + [src])
    if rc: return False
    roots = tuple(os.path.realpath(d) + os.sep for d in (REPO, scratch()))
    ours = lambda f: os.path.realpath(f).startswith(roots)
    res, keep = [], True
    for l in text.splitlines():
        m = re.match(r'# (\d+) "((?:[^"\\]|\\.)*)"([ \d]*)$', l)
        if not m:
            if keep: res.append(l)
            continue
        f, fl = m.group(2), m.group(3).split()
        if f.startswith('<'):
            continue
        if ours(f):
            keep = True
            res.append('# %s "%s"' % (m.group(1), f))
        else:
            if keep and '1' in fl:
                f = os.path.normpath(f)
                d = next((d for d in search_dirs() if f.startswith(d + os.sep)), None)
                res.append('#include %s' % ('<%s>' % f[len(d) + 1:] if d else '"%s"' % f))
            keep = False
    with open(out, 'w') as f: f.write('\n'.join(res) + '\n')
    return True


def compile_ir(config, harnesses):
    """harnesses: {name: text}. Returns Program"""
    d = os.path.join(scratch(), 'ir-' + config)
    os.makedirs(d, exist_ok=True)
    jobs = []
    inc = ['-I' + os.path.join(REPO, 'include'), '-I' + os.path.join(REPO, 'src'), '-include', 'stddef.h']
    for s in sources():
        o = os.path.join(d, re.sub(r'\W', '_', s) + '.ll')
        jobs.append((s, o, CLANG + CONFIGS[config] + inc + [os.path.join(REPO, s), '-o', o]))
    for n, t in harnesses.items():
        src = os.path.join(scratch(), n + '.cpp')
        with open(src, 'w') as f: f.write(t)
        o = os.path.join(d, n + '.ll')
        jobs.append((n, o, CLANG + CONFIGS[config] + inc + [src, '-o', o]))

    def one(j):
        src, pp = j[2][-3], j[1][:-3] + '.pp.cpp'
        if preprocess(src, LEVEL.get(config, []) + CONFIGS[config] + inc, pp):
            rc, so, se = run(CLANG + CONFIGS[config] + ['-include', 'stddef.h', pp, '-o', j[1]])
            if not rc: return j, rc, se
        rc, so, se = run(j[2])
        return j, rc, se
    with ThreadPoolExecutor(8) as ex: res = list(ex.map(one, jobs))
    prog = Program()
    for j, rc, se in res:
        if rc: raise BuildError('clang failed on %s:\n%s' % (j[0], se[:3000]))
        prog.add(j[0], open(j[1]).read())
    return prog


_solib = {}


def build_so(config, harnesses, extra=(), tag=''):
    """the real code, compiled with gcc as the project does, plus the harness, as a shared library"""
    key = (config, tag, tuple(sorted(harnesses)))
    if key in _solib: return _solib[key]
    d = os.path.join(scratch(), 'so-%s-%s' % (config, tag or hashlib.sha1(repr(key).encode()).hexdigest()[:8]))
    os.makedirs(d, exist_ok=True)
    inc = ['-I' + os.path.join(REPO, 'include'), '-I' + os.path.join(REPO, 'src'), '-include', 'stddef.h']
    jobs, objs = [], []
    for s in sources():
        o = os.path.join(d, re.sub(r'\W', '_', s) + '.o')
        objs.append(o)
        jobs.append((s, GCC + LEVEL.get(config, []) + list(extra) + CONFIGS[config] + inc + ['-c', os.path.join(REPO, s), '-o', o]))
    for n, t in harnesses.items():
        src = os.path.join(scratch(), n + '.cpp')
        with open(src, 'w') as f: f.write(t)
        o = os.path.join(d, n + '.o')
        objs.append(o)
        jobs.append((n, GCC + LEVEL.get(config, []) + list(extra) + CONFIGS[config] + inc + ['-c', src, '-o', o]))
    with ThreadPoolExecutor(8) as ex: res = list(ex.map(lambda j: (j, run(j[1])), jobs))
    for j, (rc, so, se) in res:
        if rc: raise BuildError('g++ failed on %s:\n%s' % (j[0], se[:3000]))
    so = os.path.join(d, 'lib.so')
    rc, o, se = run(['g++', '-shared', '-o', so] + list(extra) + objs + ['-Wl,-z,defs', '-lm'])
    if rc: raise BuildError('link failed:\n' + se[:3000])
    _solib[key] = so
    return so
