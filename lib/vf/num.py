"""Numbers into the integer vocabulary of the specifications (TLC ints are 32 bit)."""
import math
from fractions import Fraction

import numpy as np

BIG = 2147483646
NAN = -2147483647


def fx(x, scale=1.0):
    """Fixed point: round(x*scale), saturating; NaN -> NAN."""
    if x is None:
        return NAN + 1
    y = float(x) * scale
    if math.isnan(y):
        return NAN
    if y > BIG:
        return BIG
    if y < -BIG:
        return -BIG
    return int(round(y))


def fxs(arr, scale=1.0):
    return [fx(v, scale) for v in np.asarray(arr).ravel()]


def rat(x, maxden=5040):
    """A float as an exact small rational [num, den]."""
    f = Fraction(float(x)).limit_denominator(maxden)
    return [f.numerator, f.denominator]
