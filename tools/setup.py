#!/usr/bin/env python3-vt
"""Checks that what the framework needs is installed; builds nothing (every check builds from /repo in a scratch directory)."""
import subprocess, sys, os
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.dont_write_bytecode = True
import z3, mpmath, numpy
for c in ('clang++', 'g++', 'c++filt'): subprocess.run([c, '--version'], stdout=subprocess.DEVNULL, check=True)
import contracts.util, zv.driver
os.makedirs(zv.driver.EVID, exist_ok=True)
print('z3', z3.get_version_string(), 'mpmath', mpmath.__version__, 'numpy', numpy.__version__)
