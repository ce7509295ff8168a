"""C27: constants: the float nearest to the mathematical value (computed here to 60 digits)."""
from .util import *
import numpy as np
from fractions import Fraction


def nearest(x):
    """round-to-nearest-even of a high precision value to binary32"""
    m, e = mpmath.frexp(abs(x))
    n = int(mpmath.nint(mpmath.ldexp(m, 24)))          # 24 significant bits; the values are irrational or exact
    v = mpmath.ldexp(n, int(e) - 24)
    return float(v if x > 0 else -v)


def values():
    mpmath.mp.dps = max(mpmath.mp.dps, 60)
    pi, e, s, ln = mpmath.pi, mpmath.e, mpmath.sqrt, mpmath.log
    one = mpf(1)
    return {
        'epsilon': mpf(2) ** -23, 'zero': mpf(0), 'one': one, 'pi': +pi, 'two_pi': 2 * pi, 'root_pi': s(pi), 'half_pi': pi / 2,
        'three_over_two_pi': 3 * pi / 2, 'quarter_pi': pi / 4, 'one_over_pi': 1 / pi, 'one_over_two_pi': 1 / (2 * pi), 'two_over_pi': 2 / pi,
        'four_over_pi': 4 / pi, 'two_over_root_pi': 2 / s(pi), 'one_over_root_two': 1 / s(mpf(2)), 'root_half_pi': s(pi / 2), 'root_two_pi': s(2 * pi),
        'root_ln_four': s(ln(mpf(4))), 'e': +e, 'euler': +mpmath.euler, 'root_two': s(mpf(2)), 'root_three': s(mpf(3)), 'root_five': s(mpf(5)),
        'ln_two': ln(mpf(2)), 'ln_ten': ln(mpf(10)), 'ln_ln_two': ln(ln(mpf(2))), 'third': one / 3, 'two_thirds': 2 * one / 3, 'golden_ratio': (1 + s(mpf(5))) / 2,
    }


def contracts():
    return [Contract(n, 'zcm::%s()' % n, '', 'float', theory='F', spec=lambda v=v: fc(nearest(v) if v else 0.0)) for n, v in values().items()]
