"""C28: memory safety, initialised reads, no undefined behaviour, no assertion failure, termination, no global state -
for every public function under contract, on all inputs (not only those of the value contracts' preconditions)."""
import copy, importlib, os, time, re
from .util import *

MERGE = False
ASSUMPTIONS = ['preconditions kept from the value contracts only where the operation documents one: %s' % 'defined int arithmetic, lerp/nlerp t in [0,1] (asserted), perspective aspect != FLT_EPSILON (asserted)']


def everything(only=None):
    out = []
    for i in range(1, 28):
        m = importlib.import_module('contracts.c%02d' % i)
        for c in m.contracts():
            d = copy.copy(c)
            d.id = 'C%02d.%s' % (i, c.id)
            d.fn = re.sub(r'\W', '_', d.id)
            d.mod = m
            d.value_requires = c.requires
            d.as_found = None
            out.append(d)
    return out


def needs_precondition(c):
    """documented preconditions that safety itself depends on"""
    if c.requires is None: return False
    if any(p.kind in 'iuq' for p in c.params) or 'ivec' in c.cxx: return True      # overflow, division by zero, shift range
    if re.search(r'\bn?lerp\(|perspective', c.cxx): return True
    return False


def contracts():
    cs = []
    for c in everything():
        if not needs_precondition(c): c.requires = None
        # a function that reads nothing uninitialised, writes only its results and returns
        cs.append(c)
    return cs


def check(tier, seed):
    from zv import driver, verify as vf
    t0 = time.time()
    out = driver.Outcome()
    cs = contracts()
    progs = {}
    bad = {}
    for cfg in ('debug', 'release'):
        progs[cfg], b = driver.build(cs, cfg)
        bad.update(b)
    live = [c for c in cs if c.id not in bad]

    def one(prog, c):
        rep = None
        for cfg in ('debug', 'release'):
            r = vf.verify(progs[cfg], c, seed, safety_only=True)
            for o in r.obs: o.name += '@' + cfg
            if rep is None: rep = r
            else:
                rep.obs += r.obs
                rep.cands += r.cands
                rep.functions |= r.functions
                for k, v in r.stats.items():
                    a = rep.stats.get(k, (0, 0.0))
                    rep.stats[k] = (a[0] + v[0], a[1] + v[1])
        return rep
    reps = driver.parallel(progs['debug'], live, one)
    more = {'executor_conformance_other_configurations': driver.conform_configs(progs, live, seed, out)} if tier == 'thorough' else {}
    und = uncovered(progs['debug'], reps)
    import sys
    return driver.conclude('C28', tier, seed, t0, sys.modules[__name__], cs, live, bad, progs['debug'], reps, out,
                           extra=dict(more, **{'library_functions_not_under_contract': und, 'configurations': ['debug', 'release']}))


def uncovered(prog, reps):
    from zv import driver
    seen = set()
    for r in reps: seen |= getattr(r, 'functions', set())
    names = set()
    for m in prog.mods:
        if not m.name.startswith('src/'): continue
        for f in m.funcs:
            if f not in seen and '3zcm' in f: names.add(f)
    return sorted(driver.demangle(n) for n in names)
