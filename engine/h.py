"""Harness API.

A harness is an ordinary Python function.  Under the VM (engine.vm) the functions below create symbolic inputs and proof
obligations; run natively (validation and replay) they read concrete inputs from a model and evaluate the same obligations.
"""
import math
from fractions import Fraction
import numpy as np

INPUTS = {}        # native mode: values of the symbolic inputs
LOG = []           # native mode: (kind, label, value)
DEFAULTED = []     # inputs missing from the model
INEXACT = []
RNG = None         # degraded mode: inputs are drawn at random


class AssumptionFailed(Exception):
    pass


def _val(name, default, lo=None, hi=None, kind='R'):
    if name in INPUTS:
        return INPUTS[name]
    if RNG is not None:
        if kind == 'B':
            v = RNG.random() < 0.5
        elif kind == 'I':
            v = RNG.randint(lo, hi)
        else:
            a = -8 if lo is None else lo
            b = a + 24 if hi is None else hi
            v = Fraction(RNG.randint(0, 16) * int((b - a) * 4), 64) + Fraction(a) if RNG.random() < 0.7 else Fraction(a) + Fraction(b - a) * RNG.randint(0, 255) / 256
        INPUTS[name] = v
        return v
    DEFAULTED.append(name)
    return default


def _flt(name, x, dt):
    if isinstance(x, str):
        x = float(x)
    if isinstance(x, float) and (x != x or x in (math.inf, -math.inf)):
        return dt(x) if dt is not None else x
    if dt is np.longdouble:
        hi = float(x)
        lo = float(Fraction(x) - Fraction(hi))
        r = np.longdouble(hi) + np.longdouble(lo)
        if Fraction(float(r)) + Fraction(float(r - np.longdouble(float(r)))) != Fraction(x):
            INEXACT.append(name)
        return r
    f = float(dt(float(x))) if dt is not None else float(x)
    if Fraction(f) != Fraction(x):
        INEXACT.append(name)
    return dt(f) if dt is not None else f


def real(name, lo=None, hi=None):
    d = 0
    if lo is not None:
        d = lo
    elif hi is not None:
        d = min(0, hi)
    return _flt(name, _val(name, d, lo, hi), None)


def reals(name, shape, dtype=np.float64, lo=None, hi=None):
    shape = (shape,) if isinstance(shape, int) else tuple(shape)
    out = np.empty(shape, dtype=dtype)
    d = lo if lo is not None else 0
    for ix in np.ndindex(*shape):
        n = name + ''.join('_%d' % i for i in ix)
        out[ix] = _flt(n, _val(n, d, lo, hi), np.dtype(dtype).type)
    return out


def integer(name, lo, hi):
    return int(_val(name, lo, lo, hi, 'I'))


def integers(name, shape, lo, hi, dtype=np.int64):
    shape = (shape,) if isinstance(shape, int) else tuple(shape)
    out = np.empty(shape, dtype=dtype)
    for ix in np.ndindex(*shape):
        n = name + ''.join('_%d' % i for i in ix)
        out[ix] = int(_val(n, lo, lo, hi, 'I'))
    return out


def boolean(name):
    return bool(_val(name, False, kind='B'))


def choose(name, options):
    """one of finitely many concrete options; every one is explored"""
    return options[int(_val(name, 0, 0, len(options) - 1, 'I'))]


def setcells(a, cells, values):
    for c, v in zip(cells, values):
        a[c] = v


def assume(c):
    if not bool(c):
        raise AssumptionFailed()


def check(c, label):
    LOG.append(('check', label, bool(c)))


def reach(label):
    LOG.append(('reach', label, True))


def record(label, value):
    LOG.append(('record', label, value))


def land(*cs):
    r = True
    for c in cs:
        r = r and bool(c)
    return r


def lor(*cs):
    r = False
    for c in cs:
        r = r or bool(c)
    return r


def lnot(c):
    return not bool(c)


def implies(a, b):
    return (not bool(a)) or bool(b)


def iff(a, b):
    return bool(a) == bool(b)


def ite(c, a, b):
    return a if bool(c) else b


def total(xs):
    s = 0
    for x in xs:
        s = s + x
    return s


def count(cs):
    return sum(1 for c in cs if bool(c))


def same(a, b):
    """equality of real numbers; natively up to rounding"""
    a, b = float(a), float(b)
    if a == b:
        return True
    if math.isinf(a) or math.isinf(b):
        return False
    if a != a or b != b:
        return a != a and b != b
    return abs(a - b) <= 1e-6 * max(1.0, abs(a), abs(b)) if _tol[0] is None else abs(a - b) <= _tol[0] * max(1.0, abs(a), abs(b))


def leq(a, b):
    """a <= b; natively up to rounding"""
    return float(a) <= float(b) or same(a, b)


def near(a, b, m):
    """|a - b| <= 1e-9 m (room for the rounding of constants); natively up to rounding"""
    return same(a, b) or abs(float(a) - float(b)) <= 1e-6 * float(m)


_tol = [None]


def symbolic():
    """True under the VM"""
    return False


def text(codes):
    """string of the given code points"""
    return ''.join(chr(c) for c in codes)


def isnan(x):
    return x != x


def nan():
    return float('nan')


API = (real, reals, integer, integers, boolean, choose, assume, check, reach, record, land, lor, lnot, implies, iff, ite, total, count,
       same, leq, near, symbolic, setcells, text, isnan, nan)
