"""Contracts of helper functions, used in place of calls when they are discharged (zv/modular.py)."""
from .util import *

# property files whose functional contracts serve as callee contracts
FILES = ['c01', 'c04', 'c08', 'c09', 'c10', 'c12', 'c13', 'c15', 'c16', 'c17', 'c18', 'c22', 'c23']


def SKIP(c): return not c.opts.get('lib', True)


def proper(m):
    """the columns are a right-handed orthonormal basis"""
    c = [m[0:3], m[3:6], m[6:9]]
    return [dot(c[0], c[0]).eq(ONE), dot(c[2], c[2]).eq(ONE), dot(c[0], c[2]).eq(ZERO)] + [a.eq(b) for a, b in zip(c[1], cross(c[2], c[0]))]


def orthonormal(m):
    """what proper(m) implies about columns and rows"""
    c = [m[0:3], m[3:6], m[6:9]]
    r = [[m[0], m[3], m[6]], [m[1], m[4], m[7]], [m[2], m[5], m[8]]]
    eqs = []
    for v in (c, r):
        for i in range(3):
            eqs.append(dot(v[i], v[i]).eq(ONE))
            eqs.append(dot(v[i], v[(i + 1) % 3]).eq(ZERO))
            eqs += [a.eq(b) for a, b in zip(cross(v[i], v[(i + 1) % 3]), v[(i + 2) % 3])]
    return eqs


def rot_sample(rng):
    q = s_unit(rng, 4)
    x, y, z, w = q
    return [[1 - 2 * (y * y + z * z), 2 * (x * y + w * z), 2 * (x * z - w * y), 2 * (x * y - w * z), 1 - 2 * (x * x + z * z), 2 * (y * z + w * x), 2 * (x * z + w * y), 2 * (y * z - w * x), 1 - 2 * (x * x + y * y)]]


def contracts():
    cs = []
    cs.append(Contract('lib.quat_cast.rotation', 'zcm::quat_cast(m)', 'm:mat3', 'quat', theory='R', requires=lambda m: proper(m), derive=lambda m: orthonormal(m), sample=rot_sample, opts={'cost': 50, 'rtime': 300, 'noelim': True},
                       ensures=lambda m, r: [G('real', dot(r, r), ONE, name='unit')] + goals_equal(qmat(r), m, 'matrix')))
    return cs
