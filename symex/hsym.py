"""The harness interface, symbolic side."""
import io
import pickle

import z3

from . import core, sym
from .core import SymBool, ViolationFound, band, bor, bnot, biff, bite
from .sym import SymStr, SymDec, DECS, SymReal, mk


class SymHarness:
    symbolic = True

    def __init__(self, eng, known=(), tier="quick"):
        self.e = eng
        self.obs = []
        self.reached = set()
        self.known = known
        self.known_hit = []
        self.tier = tier

    # ---- inputs ----
    def choose(self, n, name):
        name = self.e.unique(name)
        v = self.e.choose(n, name)
        self.e.inputs.append((name, "const", v))
        return v

    def pick(self, xs, name):
        return xs[self.choose(len(xs), name)]

    def bool(self, name):
        return self.choose(2, name) == 1

    def flag(self, name):
        """A symbolic boolean (not forked until it is tested)."""
        name = self.e.unique(name)
        v = z3.Bool(name)
        self.e.inputs.append((name, "bool", v))
        return SymBool([v])

    def _mask(self, cls):
        u = self.e.u
        if cls is None:
            return u.allowed
        if isinstance(cls, str):
            key = ("cls", cls)
            m = u._pred.get(key)
            if m is None:
                m = u._pred[key] = u.mask_of([ord(c) for c in cls if ord(c) < u.n]) \
                    & u.allowed
            return m
        return u.pred(("fn", cls.__module__, cls.__qualname__), cls)

    def char(self, name, cls=None):
        name = self.e.unique(name)
        c = self.e.new_char(name, self._mask(cls))
        self.e.inputs.append((name, "char", c))
        return SymStr((c,))

    def string(self, name, lo, hi, cls=None, first=None):
        """A string of lo..hi symbolic characters of class cls."""
        n = lo + self.choose(hi - lo + 1, name + ".len")
        out = []
        for i in range(n):
            out.extend(self.char("%s.%d" % (name, i),
                                 first if i == 0 and first is not None else cls).it)
        return mk(out)

    def real(self, name, lo, hi):
        """A real in [lo, hi)."""
        name = self.e.unique(name)
        v = z3.Real(name)
        self.e.inputs.append((name, "real", v))
        self.e.assume(z3.And(v >= lo, v < hi), fresh=True)
        return SymReal(v)

    def is_multiple(self, u, n):
        """Condition: the real u is a multiple of 1/n."""
        return SymBool([z3.IsInt(u.e * n)])

    def decimal(self, name, ints, fracs):
        """A decimal number with symbolic digits."""
        digs = [self.char("%s.d%d" % (name, i), "0123456789").it[0]
                for i in range(ints + fracs)]
        return SymDec(digs, fracs)

    # ---- obligations ----
    def assume(self, cond):
        self.e.assume(cond)

    def check(self, cond, msg, sig=None):
        if sig is not None and sig in self.known:
            try:
                self.e.check(cond, msg)
            except ViolationFound:
                self.e.aborted = None
                self.e.model = None
                self.known_hit.append((sig, msg))
                self.e.assume(cond)
            return
        self.e.check(cond, msg)

    def fail(self, msg, sig=None):
        self.check(False, msg, sig)

    def observe(self, label, value):
        self.obs.append((label, value))

    def reach(self, label):
        self.reached.add(label)

    def roundtrip(self, obj, protocol):
        """obj, pickled and loaded again; symbolic values and classes are kept as they are."""
        keep = []

        class Pickler(pickle.Pickler):
            def persistent_id(self, o):
                t = type(o)
                if issubclass(t, (sym.SymDict, sym.SymSet)):
                    return None
                if issubclass(t, type) or t.__module__.startswith("symex"):
                    keep.append(o)
                    return len(keep) - 1

        class Unpickler(pickle._Unpickler):
            def persistent_load(self, pid):
                return keep[int(pid)]
        f = io.BytesIO()
        Pickler(f, protocol).dump(obj)
        f.seek(0)
        return Unpickler(f).load()

    # ---- formulas ----
    and_ = staticmethod(band)
    or_ = staticmethod(bor)
    not_ = staticmethod(bnot)
    iff = staticmethod(biff)
    ite = staticmethod(bite)

    @staticmethod
    def implies(a, b):
        return bor(bnot(a), b)

    def isin(self, ch, chars):
        """Condition: the one-character string ch is in chars (no fork)."""
        if type(ch) is SymStr:
            return sym.char_in_set(ch.it[0], chars)
        return ch in chars

    def charpred(self, ch, key, fn):
        if type(ch) is SymStr:
            return sym.char_pred(ch.it[0], key, fn)
        return fn(ch)


# ---- evaluation under a model ----------------------------------------------
class Evaluator:
    def __init__(self, eng, model):
        self.e = eng
        self.m = model
        self._c = {}

    def var(self, name):
        v = self._c.get(name)
        if v is None:
            v = self.m.eval(self.e.vars[name], model_completion=True).as_long()
            self._c[name] = v
        return v

    def value(self, x):
        t = type(x)
        if t is SymStr:
            return "".join(self.value(c) for c in x.it)
        if t is core.Ch:
            v = self.var(x.var)
            if x.map:
                v = self.e.u.get_map(x.map).get(v, v)
            return chr(v)
        if t is sym.Opq:
            return "#"
        if t is SymBool:
            return z3.is_true(self.m.eval(x.expr(), model_completion=True))
        if t in DECS:
            d = "".join(self.value(c) for c in x.digs)
            return round(int(d) / 10 ** x.scale, x.scale)
        if t is SymReal:
            return self.real(x.e)
        if t is list or t is tuple:
            return [self.value(y) for y in x]
        if isinstance(x, dict):
            return {"dict": [[self.value(k), self.value(v)] for k, v in x.items()]}
        if isinstance(x, (set, frozenset)):
            return {"set": sorted((self.value(y) for y in x), key=repr)}
        if isinstance(x, slice):
            return {"slice": [x.start, x.stop, x.step]}
        if x is None or t in (int, float, str, bool):
            return x
        if isinstance(x, type):
            return {"type": x.__name__}
        return {"obj": type(x).__name__}

    def real(self, e):
        v = self.m.eval(e, model_completion=True)
        if z3.is_algebraic_value(v):
            v = v.approx(20)
        f = v.as_fraction()
        return {"frac": [f.numerator, f.denominator]}

    def inputs(self):
        out = {}
        for name, kind, ref in self.e.inputs:
            if kind == "const":
                out[name] = ref
            elif kind == "bool":
                out[name] = z3.is_true(self.m.eval(ref, model_completion=True))
            elif kind == "char":
                out[name] = self.value(ref)
            elif kind == "real":
                out[name] = self.real(ref)
        return out
