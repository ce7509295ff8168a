"""Concrete evaluation of terms: F (bit-exact binary32/64 with the system libm) and R (mpmath reals)."""
import ctypes, math, struct
import numpy as np
import mpmath
from .terms import *

np.seterr(all='ignore')
_libm = ctypes.CDLL('libm.so.6')
_lcache = {}


def libm(name, sort, n):
    key = (name, sort, n)
    f = _lcache.get(key)
    if f is None:
        cname = name + ('f' if sort == 'f' else '')
        f = getattr(_libm, cname)
        ty = ctypes.c_float if sort == 'f' else ctypes.c_double
        f.restype = ty
        f.argtypes = [ty] * n
        _lcache[key] = f
    return f


FT = {'f': np.float32, 'd': np.float64}


def bitsof(v, sort):
    return struct.unpack('<I', struct.pack('<f', float(v)))[0] if sort == 'f' and v == v else \
        (int(np.float32(v).view(np.uint32)) if sort == 'f' else int(np.float64(v).view(np.uint64)))


def frombits(b, sort):
    return np.uint32(b).view(np.float32) if sort == 'f' else np.uint64(b).view(np.float64)


class EvalError(Exception):
    pass


def evalF(ts, env):
    """env: dict var-term -> python int (ints), bool, or np.float32. returns list of values"""
    memo = {}
    for x in subterms(ts):
        op, s = x.op, x.sort
        A = [memo[a] if isinstance(a, T) else a for a in x.args]
        if op == 'c':
            v = A[0] if s not in ('f', 'd') else frombits(A[0], s)
        elif op == 'v':
            v = env[x]
        elif op == 'not': v = not A[0]
        elif op == 'and' and s == 'b': v = all(A)
        elif op == 'ite': v = A[1] if A[0] else A[2]
        elif op in ('add', 'sub', 'mul', 'udiv', 'sdiv', 'urem', 'srem', 'and', 'or', 'xor', 'shl', 'lshr', 'ashr'):
            v = int_eval(op, A[0], A[1], s) if A[0] is not None and A[1] is not None else None
        elif op in ('ieq', 'iult', 'islt'):
            v = icmp_eval(op[1:], A[0], A[1], x.args[0].sort) if None not in A[:2] else False
        elif op == 'zext': v = int(A[0])
        elif op == 'sext':
            n = x.args[0].sort
            v = (sgn(int(A[0]), 1 if n == 'b' else n)) & ((1 << s) - 1)
        elif op == 'trunc': v = bool(A[0] & 1) if s == 'b' else A[0] & ((1 << s) - 1)
        elif op == 'extract': v = (A[0] >> A[1]) & ((1 << A[2]) - 1)
        elif op == 'concat': v = A[0] << x.args[1].sort | A[1]
        elif op == 'bits2f': v = frombits(A[0], s)
        elif op == 'f2bits': v = bitsof(A[0], x.args[0].sort)
        elif op == 'fneg': v = FT[s](-A[0])
        elif op == 'fadd': v = FT[s](A[0] + A[1])
        elif op == 'fmul': v = FT[s](A[0] * A[1])
        elif op == 'fdiv': v = FT[s](A[0] / A[1])
        elif op == 'isnan': v = bool(A[0] != A[0])
        elif op == 'feq': v = bool(A[0] == A[1])
        elif op == 'flt': v = bool(A[0] < A[1])
        elif op == 'fle': v = bool(A[0] <= A[1])
        elif op == 'fn':
            name, args = A[0], A[1:]
            v = evalfnF(name, s, args)
        elif op == 'sitofp': v = FT[s](sgn(int(A[0]), x.args[0].sort))
        elif op == 'uitofp': v = FT[s](int(A[0]))
        elif op == 'fpext': v = np.float64(A[0])
        elif op == 'fptrunc': v = np.float32(A[0])
        elif op in ('fptosi', 'fptoui'):
            v = int(A[0]) & ((1 << s) - 1) if math.isfinite(A[0]) else 0
        else:
            raise EvalError('evalF ' + op)
        memo[x] = v
    return [memo[t] for t in ts]


def evalfnF(name, s, args):
    if name == 'fabs': return FT[s](abs(args[0]))
    if name == 'muladd': return FT[s](FT[s](args[0] * args[1]) + args[2])
    if name == 'sqrt': return FT[s](np.sqrt(args[0]))
    f = libm(name, s, len(args))
    return FT[s](f(*[float(a) for a in args]))


# ------------------------------------------------------------------ reals
mpmath.mp.dps = 40
mpf = mpmath.mpf


def mpround(name, a):
    if name == 'floor': return mpmath.floor(a)
    if name == 'ceil': return mpmath.ceil(a)
    if name == 'trunc': return mpmath.floor(a) if a >= 0 else mpmath.ceil(a)
    if name == 'round': return mpmath.floor(a + mpf(1) / 2) if a >= 0 else -mpmath.floor(-a + mpf(1) / 2)
    if name in ('rint', 'nearbyint'): return mpmath.nint(a)


def evalfnR(name, a):
    x = a[0]
    if name == 'fabs': return abs(x)
    if name == 'sqrt':
        if x < 0: raise EvalError('sqrt<0')
        return mpmath.sqrt(x)
    if name in ('acos', 'asin'):
        if abs(x) > 1: raise EvalError('acos domain')
        return getattr(mpmath, name)(x)
    if name == 'acosh':
        if x < 1: raise EvalError('domain')
        return mpmath.acosh(x)
    if name == 'atanh':
        if abs(x) >= 1: raise EvalError('domain')
        return mpmath.atanh(x)
    if name in ('log', 'log2', 'log10'):
        if x <= 0: raise EvalError('domain')
        return {'log': mpmath.log(x), 'log2': mpmath.log(x, 2), 'log10': mpmath.log10(x)}[name]
    if name == 'atan2':
        return mpmath.atan2(a[0], a[1])
    if name == 'exp2': return mpf(2) ** x
    if name == 'cbrt': return mpmath.cbrt(x) if x >= 0 else -mpmath.cbrt(-x)
    if name == 'pow':
        if x < 0 and a[1] != int(a[1]): raise EvalError('domain')
        if x == 0 and a[1] <= 0: raise EvalError('domain')
        return mpmath.power(x, a[1])
    if name in ('fma', 'muladd'): return a[0] * a[1] + a[2]
    if name == 'fmin': return min(a)
    if name == 'fmax': return max(a)
    if name == 'copysign': return abs(a[0]) if a[1] >= 0 else -abs(a[0])
    if name == 'hypot': return mpmath.sqrt(sum(t * t for t in a))
    if name == 'fmod':
        q = a[0] / a[1]
        return a[0] - a[1] * mpround('trunc', q)
    if name in ('floor', 'ceil', 'trunc', 'round', 'rint', 'nearbyint'): return mpround(name, x)
    if hasattr(mpmath, name): return getattr(mpmath, name)(x)
    raise EvalError(name)


def evalR(ts, env, memo=None):
    memo = {} if memo is None else memo
    """lazy evaluation (only the taken branch of ite), so that domain errors in dead branches are ignored"""
    import sys
    sys.setrecursionlimit(100000)

    def ev(x):
        if x in memo: return memo[x]
        op, s = x.op, x.sort
        if op == 'c':
            if s in ('f', 'd'):
                v = fval(x)
                if v != v or v in (float('inf'), float('-inf')):
                    raise EvalError('nonfinite const')
                v = mpf(v)
            else: v = x.args[0]
        elif op == 'v':
            v = env[x]
            if s in ('f', 'd'): v = mpf(float(v)) if not isinstance(v, mpf) else v
        elif op == 'ite': v = ev(x.args[1]) if ev(x.args[0]) else ev(x.args[2])
        elif op == 'and' and s == 'b': v = all(ev(a) for a in x.args)
        else:
            A = [ev(a) if isinstance(a, T) else a for a in x.args]
            if op == 'not': v = not A[0]
            elif op == 'fneg': v = -A[0]
            elif op == 'fadd': v = A[0] + A[1]
            elif op == 'fmul': v = A[0] * A[1]
            elif op == 'fdiv':
                if A[1] == 0: raise EvalError('div0')
                v = A[0] / A[1]
            elif op == 'isnan': v = False
            elif op == 'feq': v = A[0] == A[1]
            elif op == 'flt': v = A[0] < A[1]
            elif op == 'fle': v = A[0] <= A[1]
            elif op == 'fn': v = evalfnR(A[0], A[1:])
            elif op in ('sitofp',): v = mpf(sgn(int(A[0]), x.args[0].sort))
            elif op in ('uitofp',): v = mpf(int(A[0]))
            elif op in ('fpext', 'fptrunc'): v = A[0]
            elif op in ('add', 'sub', 'mul', 'udiv', 'sdiv', 'urem', 'srem', 'and', 'or', 'xor', 'shl', 'lshr', 'ashr'): v = int_eval(op, A[0], A[1], s)
            elif op in ('ieq', 'iult', 'islt'): v = icmp_eval(op[1:], A[0], A[1], x.args[0].sort)
            elif op == 'zext': v = int(A[0])
            elif op == 'sext':
                n = x.args[0].sort
                v = (sgn(int(A[0]), 1 if n == 'b' else n)) & ((1 << s) - 1)
            elif op == 'trunc': v = bool(A[0] & 1) if s == 'b' else A[0] & ((1 << s) - 1)
            elif op == 'extract': v = (A[0] >> A[1]) & ((1 << A[2]) - 1)
            elif op == 'concat': v = A[0] << x.args[1].sort | A[1]
            elif op == 'fptosi':
                v = int(A[0]) & ((1 << s) - 1)
            else: raise EvalError('evalR ' + op)
        memo[x] = v
        return v
    return [ev(t) for t in ts]
