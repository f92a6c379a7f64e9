"""
Environment stubs: `random` returns arbitrary values of the documented range and
`math.log` is constrained by its contract on the range the code uses.
"""
import math as _math
import os as _os
import random as _random
import types

import z3

from . import core, randshim
from .sym import SymReal, SymStr


random = randshim.RandomShim("random")
set_harness = randshim.set_harness


class _MathShim(types.ModuleType):
    def log(self, x, base=None):
        if type(x) is not SymReal:
            return _math.log(x) if base is None else _math.log(x, base)
        if x <= 0:
            raise ValueError("math domain error")
        if base is None or not isinstance(base, (int, float)):
            core.ENGINE.abort(core.Unsupported("math.log of a symbolic real"))
        # Contract: for a positive base b != 1, log is strictly monotone with
        # log(b**k) == k.  The result is an arbitrary real that obeys this at the
        # integer points |k| <= LOG_POINTS.
        eng = core.ENGINE
        name = eng.unique("log")
        y = z3.Real(name)
        from fractions import Fraction
        b = Fraction(base)
        if b <= 0 or b == 1:
            raise ValueError("math domain error")
        K = LOG_POINTS
        cons = []
        for k in range(-K, K + 1):
            p = z3.RealVal(str(b ** k))
            kk = z3.RealVal(k)
            if b < 1:
                cons.append((x.e < p) == (y > kk))
            else:
                cons.append((x.e < p) == (y < kk))
            cons.append((x.e == p) == (y == kk))
        eng.assume(z3.And(cons))
        return SymReal(y)

    def log2(self, x):
        return self.log(x, 2)

    def log10(self, x):
        return self.log(x, 10)

    def floor(self, x):
        return x.floor(True) if type(x) is SymReal else _math.floor(x)

    def ceil(self, x):
        return -((-x).floor()) if type(x) is SymReal else _math.ceil(x)


LOG_POINTS = 12
math = _MathShim("math")
for _n in dir(_math):
    if not hasattr(_MathShim, _n) or _n.startswith("__"):
        if not _n.startswith("__"):
            setattr(math, _n, getattr(_math, _n))
for _n in dir(_random):
    if not _n.startswith("__") and not hasattr(randshim.RandomShim, _n):
        setattr(random, _n, getattr(_random, _n))


# -- os and os.path: joining paths of symbolic strings; the rest is native ----------
os = types.ModuleType("os")
path = types.ModuleType("os.path")
for _n in dir(_os.path):
    if not _n.startswith("__"):
        setattr(path, _n, getattr(_os.path, _n))
for _n in dir(_os):
    if not _n.startswith("__"):
        setattr(os, _n, getattr(_os, _n))
os.path = path


def _join(first, *more):
    out = first
    for x in more:
        if x[:1] == "/":
            out = x
        elif not out or out[-1:] == "/":
            out = out + x
        else:
            out = out + "/" + x
    return out


def _fspath(p):
    return p if type(p) is SymStr else _os.fspath(p)


def _splitext(p):
    if type(p) is not SymStr:
        return _os.path.splitext(p)
    i = p.rfind(".")
    if i <= p.rfind("/") or not p[p.rfind("/") + 1:i].strip("."):
        return p, ""
    return p[:i], p[i:]


path.join = _join
path.splitext = _splitext
os.fspath = _fspath
