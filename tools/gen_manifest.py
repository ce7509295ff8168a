#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(ROOT, 'properties.jsonl'))]
EXACT = 'postconditions discharged bit-exactly (IEEE single precision / 32-bit integers), all inputs, no bound'
REAL = 'postconditions discharged over the reals for all inputs satisfying the precondition, no bound; float rounding, overflow and underflow are outside them as the property says "up to float rounding"; branches, aliasing and memory accesses are those of the compiled source'
MIX = 'data movement and comparisons bit-exact, arithmetic identities over the reals (rounding outside); all inputs, no bound'
NOTE = {}
for i in (1, 2, 3, 4, 5, 6, 7, 9, 10, 27): NOTE[i] = EXACT
for i in (8, 11, 15, 16, 17, 22): NOTE[i] = MIX
for i in (12, 13, 14, 18, 19, 20, 21, 23, 24, 25, 26): NOTE[i] = REAL
NOTE[28] = 'every memory access, division, shift, conversion, assertion and read of uninitialised memory met on any path is an obligation, in the debug and release configurations; loops are unrolled to their compile-time bounds, so termination is part of it'
NOTE[30] = 'the body of every declared function (and of everything it calls) is found and executed symbolically to a normal return, in the debug, release and swizzle-free configurations; declarations of swizzle-class members, whose value contracts are C05, are checked for the presence of their body'
NOTE[29] = 'relational contract: the debug translation is the specification of the release and of the swizzle-free translation of the same function, bit-exact, for all inputs the debug assertions accept'
TRUST = ' Trusted: clang -O0 translation to LLVM IR, the IR executor and provers in zv/, z3; libm functions are uninterpreted or their exact mathematical meaning.'
NA = {}
checks = []
for p in props:
    i = int(p['id'][1:])
    if p['id'] in NA: continue
    checks.append({'property': p['id'], 'quick_cmd': 'python3-vt check.py %s --tier quick' % p['id'], 'thorough_cmd': 'python3-vt check.py %s --tier thorough' % p['id'],
                   'evidence_file': 'evidence/%s.json' % p['id'],
                   'technique': 'contract-based deductive verification: verification conditions generated from the clang translation of /repo source, discharged by z3 and a real-arithmetic normaliser',
                   'level': 'proof', 'level_note': NOTE[i] + '.' + TRUST})
m = {'version': 1, 'setup_cmd': 'python3-vt tools/setup.py', 'checks': checks,
     'not_applicable': [{'property': k, 'reason': v} for k, v in NA.items()],
     'notes': 'No hooks: the contracts live in /verif and are attached to the unmodified source by harness functions compiled with it. See DESIGN.md.'}
with open(os.path.join(ROOT, 'MANIFEST.json'), 'w') as f: json.dump(m, f, indent=1)
print(len(checks), 'checks')
