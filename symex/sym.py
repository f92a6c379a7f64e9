"""
Symbolic values: strings, decimals, reals, hashes, dictionaries and sets.

The proxies answer `isinstance(x, str)` and friends through a `__class__`
property, so the code under analysis takes the same branches as on real values.
"""
from fractions import Fraction

import z3

from . import core
from .core import (Ch, SymBool, Unsupported, band, bor, bnot, biff, bexpr)


def is_sym(x):
    t = type(x)
    return t is SymStr or t is SymBool or t in DECS or t is SymReal or t is SymHash


def contains_sym(x, depth=4):
    """Does x (possibly a nested builtin container) hold symbolic data?"""
    t = type(x)
    if t in _SYMS:
        return True
    if depth and (t is list or t is tuple):
        return any(contains_sym(y, depth - 1) for y in x)
    if depth and t is dict:
        return any(contains_sym(y, depth - 1) for y in x.values())
    return False


# --------------------------------------------------------------------------
# characters
# --------------------------------------------------------------------------
def char_pred(item, key, fn):
    """Condition fn(character) for an item; key identifies fn in the caches."""
    if type(item) is str:
        return fn(item)
    if type(item) is Opq:
        core.ENGINE.abort(Unsupported("text of a hash value"))
    u = core.ENGINE.u
    mask = u.pred(key, fn)
    return SymBool.char_in(item.var, u.preimage(item.map, mask))


def char_in_set(item, chars):
    if type(item) is str:
        return item in chars
    if type(item) is Opq:
        core.ENGINE.abort(Unsupported("text of a hash value"))
    u = core.ENGINE.u
    key = ("set", chars)
    mask = u._pred.get(key)
    if mask is None:
        mask = u._pred[key] = u.mask_of(
            [ord(c) for c in set(chars) if ord(c) < u.n]) & u.allowed
    # the characters are those of the image, so test before the map
    return SymBool.char_in(item.var, u.preimage(item.map, mask))


def _const_of(ch):
    d = core.ENGINE.dom[ch.var]
    if d and d & (d - 1) == 0:
        c = d.bit_length() - 1
        if ch.map:
            c = core.ENGINE.u.get_map(ch.map).get(c, c)
        return chr(c)
    return None


class Opq:
    """A string item standing for the text of an uninterpreted value (a hash)."""
    __slots__ = ("key",)

    def __init__(self, key):
        self.key = key


def char_eq(a, b):
    if type(a) is str:
        if type(b) is str:
            return a == b
        a, b = b, a
    if type(a) is Opq or type(b) is Opq:
        if type(a) is type(b):
            return hkey_eq(a.key, b.key)
        return False
    if type(b) is str:
        u = core.ENGINE.u
        c = ord(b)
        if c >= u.n:
            return False
        return SymBool.char_in(a.var, u.preimage(a.map, 1 << c) & u.allowed)
    if a.var == b.var:
        if a.map == b.map:
            return True
        u = core.ENGINE.u
        m1 = u.get_map(a.map) if a.map else {}
        m2 = u.get_map(b.map) if b.map else {}
        bad = u.mask_of([c for c in set(m1) | set(m2)
                         if m1.get(c, c) != m2.get(c, c)])
        return SymBool.char_in(a.var, u.allowed & ~bad)
    ca = _const_of(a)
    if ca is not None:
        return char_eq(ca, b)
    cb = _const_of(b)
    if cb is not None:
        return char_eq(a, cb)
    if a.dom_image() & b.dom_image() == 0:
        return False
    return SymBool.of(a.expr() == b.expr())


def char_code(item):
    """z3 bit-vector of the item's code point."""
    if type(item) is str:
        return z3.BitVecVal(ord(item), core.ENGINE.u.bits)
    if type(item) is Opq:
        core.ENGINE.abort(Unsupported("text of a hash value"))
    return item.expr()


def concretize_char(item):
    """Fork until the item is a single concrete character."""
    if type(item) is str:
        return item
    if type(item) is Opq:
        core.ENGINE.abort(Unsupported("text of a hash value"))
    c = _const_of(item)
    while c is None:
        # the lowest value left: a choice that a replay of the path repeats
        u = core.ENGINE.u
        d = core.ENGINE.dom[item.var]
        v = (d & -d).bit_length() - 1
        if SymBool.char_in(item.var, 1 << v):
            return chr(u.get_map(item.map).get(v, v) if item.map else v)
        c = _const_of(item)
    return c


# --------------------------------------------------------------------------
# strings
# --------------------------------------------------------------------------
def mk(items):
    for x in items:
        if type(x) is not str:
            return SymStr(tuple(items))
    return "".join(items)


def items_of(s):
    if type(s) is SymStr:
        return s.it
    if isinstance(s, str):
        return tuple(s)
    raise TypeError("expected str instance, %s found" % type(s).__name__)


def lift(s):
    return s if type(s) is SymStr else SymStr(tuple(s))


def seq_eq(a, b):
    if len(a) != len(b):
        return False
    parts = []
    for x, y in zip(a, b):
        c = char_eq(x, y)
        if c is False:
            return False
        if c is not True:
            parts.append(c)
    if not parts:
        return True
    return band(*parts)


def concretize(s):
    if type(s) is SymStr:
        return "".join(concretize_char(c) for c in s.it)
    return s


WS = ("py", "isspace")


def _slice_bounds(n, start, end):
    if start is None:
        start = 0
    if end is None:
        end = n
    if start < 0:
        start = max(0, start + n)
    if end < 0:
        end = max(0, end + n)
    return start, min(end, n)


class SymStr:
    __slots__ = ("it",)

    def __init__(self, items):
        self.it = items

    @property
    def __class__(self):
        return str

    # ---- basics ----
    def __len__(self):
        return len(self.it)

    def __bool__(self):
        return len(self.it) > 0

    def __iter__(self):
        for c in self.it:
            yield c if type(c) is str else SymStr((c,))

    def __getitem__(self, i):
        if isinstance(i, slice):
            return mk(self.it[i])
        try:
            c = self.it[i]
        except IndexError:
            raise IndexError("string index out of range")
        return c if type(c) is str else SymStr((c,))

    def __eq__(self, o):
        if self is o:
            return True
        if type(o) is SymStr:
            return seq_eq(self.it, o.it)
        if isinstance(o, str):
            return seq_eq(self.it, o)
        return NotImplemented

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else bnot(r)

    def _cmp(self, o, strict):
        """self < o (strict) or self <= o."""
        a, b = self.it, items_of(o)
        n = min(len(a), len(b))
        # from the last position backwards
        if len(a) < len(b):
            r = True
        elif len(a) > len(b):
            r = False
        else:
            r = not strict
        for i in range(n - 1, -1, -1):
            x, y = a[i], b[i]
            if type(x) is str and type(y) is str:
                r = True if x < y else (False if x > y else r)
            else:
                lt = SymBool.of(z3.ULT(char_code(x), char_code(y)))
                r = bor(lt, band(char_eq(x, y), r))
        return r

    def __lt__(self, o):
        return self._cmp(o, True) if isinstance(o, str) else NotImplemented

    def __le__(self, o):
        return self._cmp(o, False) if isinstance(o, str) else NotImplemented

    def __gt__(self, o):
        return bnot(self._cmp(o, False)) if isinstance(o, str) else NotImplemented

    def __ge__(self, o):
        return bnot(self._cmp(o, True)) if isinstance(o, str) else NotImplemented

    def __add__(self, o):
        if not isinstance(o, str):
            return NotImplemented
        if not len(o):
            return self
        return SymStr(self.it + items_of(o))

    def __radd__(self, o):
        if not isinstance(o, str):
            return NotImplemented
        if not o:
            return self
        return SymStr(items_of(o) + self.it)

    def __mul__(self, n):
        return mk(self.it * n)
    __rmul__ = __mul__

    def __mod__(self, args):
        from . import rt
        return rt.mod(self, args)

    def __contains__(self, o):
        return bool(self._contains(o))

    def _contains(self, o):
        b = items_of(o)
        n = len(b)
        if n == 0:
            return True
        return bor(*[seq_eq(self.it[i:i + n], b)
                     for i in range(len(self.it) - n + 1)])

    def __hash__(self):
        core.ENGINE.abort(Unsupported("hash of a symbolic string in a native container"))

    def __str__(self):
        core.ENGINE.abort(Unsupported("native str() of a symbolic string"))

    def __repr__(self):
        return "<%s>" % "".join(c if type(c) is str else "{%s}" % c.var
                                for c in self.it)

    def __format__(self, spec):
        core.ENGINE.abort(Unsupported("native format() of a symbolic string"))

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self

    def __reduce_ex__(self, proto):
        return (_restore, (tuple((c,) if type(c) is str else (c.var, c.map)
                                 for c in self.it),))

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        if hasattr(str, name):
            core.ENGINE.abort(Unsupported("str.%s on a symbolic string" % name))
        raise AttributeError("'str' object has no attribute %r" % name)

    # ---- comparisons ----
    def startswith(self, p, start=None, end=None):
        s, e = _slice_bounds(len(self.it), start, end)
        if isinstance(p, tuple):
            return bor(*[self.startswith(q, s, e) for q in p])
        b = items_of(p)
        if s > len(self.it) or s + len(b) > e:
            return False
        return seq_eq(self.it[s:s + len(b)], b)

    def endswith(self, p, start=None, end=None):
        s, e = _slice_bounds(len(self.it), start, end)
        if isinstance(p, tuple):
            return bor(*[self.endswith(q, s, e) for q in p])
        b = items_of(p)
        if e - len(b) < s:
            return False
        return seq_eq(self.it[e - len(b):e], b)

    def find(self, p, start=None, end=None):
        s, e = _slice_bounds(len(self.it), start, end)
        b = items_of(p)
        for i in range(s, e - len(b) + 1):
            if seq_eq(self.it[i:i + len(b)], b):
                return i
        return -1

    def rfind(self, p, start=None, end=None):
        s, e = _slice_bounds(len(self.it), start, end)
        b = items_of(p)
        for i in range(e - len(b), s - 1, -1):
            if seq_eq(self.it[i:i + len(b)], b):
                return i
        return -1

    def index(self, *a):
        i = self.find(*a)
        if i < 0:
            raise ValueError("substring not found")
        return i

    def rindex(self, *a):
        i = self.rfind(*a)
        if i < 0:
            raise ValueError("substring not found")
        return i

    def count(self, p, start=None, end=None):
        s, e = _slice_bounds(len(self.it), start, end)
        b = items_of(p)
        if not b:
            return max(0, e - s + 1)
        n, i = 0, s
        while i + len(b) <= e:
            if seq_eq(self.it[i:i + len(b)], b):
                n += 1
                i += len(b)
            else:
                i += 1
        return n

    # ---- transformations ----
    def replace(self, old, new, count=-1):
        a, b, c = self.it, items_of(old), items_of(new)
        out, i, k = [], 0, 0
        if not b:
            for j, x in enumerate(a):
                if count < 0 or k < count:
                    out.extend(c)
                    k += 1
                out.append(x)
            if count < 0 or k < count:
                out.extend(c)
            return mk(out)
        while i < len(a):
            if (count < 0 or k < count) and i + len(b) <= len(a) and \
                    seq_eq(a[i:i + len(b)], b):
                out.extend(c)
                i += len(b)
                k += 1
            else:
                out.append(a[i])
                i += 1
        return mk(out)

    def _strip_pred(self, chars):
        if chars is None:
            return lambda c: char_pred(c, WS, str.isspace)
        if type(chars) is SymStr:
            return lambda c: bor(*[char_eq(c, x) for x in chars.it])
        return lambda c: char_in_set(c, chars)

    def lstrip(self, chars=None):
        p = self._strip_pred(chars)
        i = 0
        while i < len(self.it) and p(self.it[i]):
            i += 1
        return mk(self.it[i:]) if i else self

    def rstrip(self, chars=None):
        p = self._strip_pred(chars)
        i = len(self.it)
        while i > 0 and p(self.it[i - 1]):
            i -= 1
        return mk(self.it[:i]) if i < len(self.it) else self

    def strip(self, chars=None):
        r = self.lstrip(chars)
        return r.rstrip(chars) if type(r) is SymStr else r.rstrip(chars)

    def split(self, sep=None, maxsplit=-1):
        a = self.it
        out = []
        if sep is None:
            i = 0
            while True:
                while i < len(a) and char_pred(a[i], WS, str.isspace):
                    i += 1
                if i >= len(a):
                    return out
                if maxsplit >= 0 and len(out) >= maxsplit:
                    j = len(a)
                    while j > i and char_pred(a[j - 1], WS, str.isspace):
                        j -= 1
                    out.append(mk(a[i:j]))
                    return out
                j = i
                while j < len(a) and not char_pred(a[j], WS, str.isspace):
                    j += 1
                out.append(mk(a[i:j]))
                i = j
        b = items_of(sep)
        if not b:
            raise ValueError("empty separator")
        i = s = 0
        while i + len(b) <= len(a):
            if (maxsplit < 0 or len(out) < maxsplit) and seq_eq(a[i:i + len(b)], b):
                out.append(mk(a[s:i]))
                i += len(b)
                s = i
            else:
                i += 1
        out.append(mk(a[s:]))
        return out

    def rsplit(self, sep=None, maxsplit=-1):
        if maxsplit < 0:
            return self.split(sep)
        a = self.it
        out = []
        if sep is None:
            e = len(a)
            while True:
                while e > 0 and char_pred(a[e - 1], WS, str.isspace):
                    e -= 1
                if e == 0:
                    return out
                if len(out) >= maxsplit:
                    i = 0
                    while i < e and char_pred(a[i], WS, str.isspace):
                        i += 1
                    out.insert(0, mk(a[i:e]))
                    return out
                j = e
                while j > 0 and not char_pred(a[j - 1], WS, str.isspace):
                    j -= 1
                out.insert(0, mk(a[j:e]))
                e = j
        b = items_of(sep)
        e = len(a)
        while len(out) < maxsplit:
            i = SymStr(a[:e]).rfind(sep) if e else -1
            if i < 0:
                break
            out.insert(0, mk(a[i + len(b):e]))
            e = i
        out.insert(0, mk(a[:e]))
        return out

    def partition(self, sep):
        i = self.find(sep)
        if i < 0:
            return (self, "", "")
        return (mk(self.it[:i]), sep, mk(self.it[i + len(sep):]))

    def rpartition(self, sep):
        i = self.rfind(sep)
        if i < 0:
            return ("", "", self)
        return (mk(self.it[:i]), sep, mk(self.it[i + len(sep):]))

    def splitlines(self, keepends=False):
        a = self.it
        out, s, i = [], 0, 0
        while i < len(a):
            if char_pred(a[i], ("py", "eol"), lambda c: len(("a%sb" % c).splitlines()) > 1):
                e = i + 1
                if char_eq(a[i], "\r") and e < len(a) and char_eq(a[e], "\n"):
                    e += 1
                out.append(mk(a[s:e] if keepends else a[s:i]))
                s = i = e
            else:
                i += 1
        if s < len(a):
            out.append(mk(a[s:]))
        return out

    def expandtabs(self, tabsize=8):
        out, colno = [], 0
        for c in self.it:
            if type(c) is not str:
                if not char_in_set(c, "\t\n\r"):
                    out.append(c)
                    colno += 1
                    continue
                c = concretize_char(c)
            if c == "\t":
                k = tabsize - colno % tabsize if tabsize > 0 else 0
                out.extend(" " * k)
                colno += k
            else:
                out.append(c)
                colno = 0 if c in "\r\n" else colno + 1
        return mk(out)

    def join(self, it):
        out = []
        for i, s in enumerate(it):
            if i:
                out.extend(self.it)
            out.extend(items_of(s))
        return mk(out)

    def _map(self, name):
        return mk([getattr(c, name)() if type(c) is str else c.apply(name)
                   for c in self.it])

    def lower(self):
        return self._map("lower")

    def upper(self):
        return self._map("upper")

    def swapcase(self):
        return self._map("swapcase")

    def casefold(self):
        return self._map("casefold")

    def capitalize(self):
        f = self.it[0]
        f = f.title() if type(f) is str else f.apply("title")
        return SymStr((f,)) + mk(self.it[1:]).lower()

    def title(self):
        out, prev = [], False
        for c in self.it:
            m = "lower" if prev else "title"
            out.append(getattr(c, m)() if type(c) is str else c.apply(m))
            prev = bool(char_pred(c, ("py", "cased"),
                                  lambda x: x.lower() != x or x.upper() != x))
        return mk(out)

    def removeprefix(self, p):
        return mk(self.it[len(p):]) if self.startswith(p) else self

    def removesuffix(self, p):
        return mk(self.it[:len(self.it) - len(p)]) \
            if len(p) and self.endswith(p) else self

    def translate(self, table):
        out = []
        todo = [k for k in table]
        for c in self.it:
            hit = False
            if type(c) is str:
                if ord(c) in table:
                    hit, k = True, ord(c)
            else:
                for k in todo:
                    if char_eq(c, chr(k)):
                        hit = True
                        break
            if not hit:
                out.append(c)
                continue
            v = table[k]
            if v is None:
                continue
            out.extend(chr(v) if isinstance(v, int) else items_of(v))
        return mk(out)

    def ljust(self, w, fill=" "):
        return self + fill * max(0, w - len(self.it))

    def rjust(self, w, fill=" "):
        return fill * max(0, w - len(self.it)) + self

    def zfill(self, w):
        k = max(0, w - len(self.it))
        if k and char_in_set(self.it[0], "+-"):
            return SymStr((self.it[0],) + ("0",) * k + self.it[1:])
        return "0" * k + self

    def format(self, *a, **k):
        core.ENGINE.abort(Unsupported("format() on a symbolic template"))

    def encode(self, *a):
        return concretize(self).encode(*a)

    def __iadd__(self, o):
        return self + o

    # ---- predicates ----
    def _all(self, name):
        f = getattr(str, name)
        return band(*[char_pred(c, ("py", name), f) for c in self.it])

    def isspace(self):
        return self._all("isspace")

    def isalpha(self):
        return self._all("isalpha")

    def isalnum(self):
        return self._all("isalnum")

    def isdigit(self):
        return self._all("isdigit")

    def isdecimal(self):
        return self._all("isdecimal")

    def isnumeric(self):
        return self._all("isnumeric")

    def isprintable(self):
        return self._all("isprintable")

    def isascii(self):
        return self._all("isascii")

    def isidentifier(self):
        return band(char_pred(self.it[0], ("py", "idstart"), str.isidentifier),
                    *[char_pred(c, ("py", "idcont"), lambda x: ("a" + x).isidentifier())
                      for c in self.it[1:]])

    def _cased(self, good, bad):
        def is_bad(c):
            return c.isupper() or c.istitle() and not c.islower() if bad == "isupper" \
                else c.islower() or (c.istitle() and not c.isupper())
        g = bor(*[char_pred(c, ("py", good), getattr(str, good)) for c in self.it])
        b = bor(*[char_pred(c, ("pybad", bad), is_bad) for c in self.it])
        return band(g, bnot(b))

    def islower(self):
        return self._cased("islower", "isupper")

    def isupper(self):
        return self._cased("isupper", "islower")


def _restore(items):
    return mk([c[0] if len(c) == 1 else Ch(*c) for c in items])


# --------------------------------------------------------------------------
# numbers
# --------------------------------------------------------------------------
class SymDec:
    """
    A non-negative decimal number with symbolic digits: digs are the digit
    items, `scale` of which are behind the decimal point.
    """
    __slots__ = ("digs", "scale", "_v")

    def __init__(self, digs, scale):
        self.digs = tuple(digs)
        self.scale = scale
        self._v = None

    @property
    def __class__(self):
        return float

    def scaled(self):
        """z3 Int: value * 10**scale."""
        if self._v is None:
            e = z3.IntVal(0)
            for d in self.digs:
                if type(d) is str:
                    dv = z3.IntVal(int(d))
                else:
                    dv = z3.BV2Int(d.expr()) - 48
                e = e * 10 + dv
            self._v = z3.simplify(e)
        return self._v

    def real(self):
        return z3.ToReal(self.scaled()) / z3.RealVal(10 ** self.scale)

    def digits(self, ints, scale):
        """The digit items with `ints` integer digits and `scale` decimals, or None."""
        d = list(self.digs) + ["0"] * max(0, scale - self.scale)
        s = max(scale, self.scale)
        if s != scale:
            return None
        k = len(d) - s
        if k < ints:
            d = ["0"] * (ints - k) + d
        return d if len(d) - s == ints else None

    def _rel(self, o, op):
        if type(o) in DECS:
            s = max(self.scale, o.scale)
            if op == "eq":
                n = max(len(self.digs) - self.scale, len(o.digs) - o.scale)
                a, b = self.digits(n, s), o.digits(n, s)
                return seq_eq(a, b)
            a = self.scaled() * 10 ** (s - self.scale)
            b = o.scaled() * 10 ** (s - o.scale)
        elif type(o) is SymReal:
            a, b = self.real(), o.e
        elif isinstance(o, (int, float)):
            f = Fraction(o) * 10 ** self.scale
            if op == "eq":
                f4 = Fraction(str(o)) * 10 ** self.scale
                if f4.denominator != 1 or f4 < 0:
                    return False
                digs = str(int(f4)).rjust(len(self.digs), "0")
                if len(digs) > len(self.digs):
                    return False
                return seq_eq(self.digs, digs)
            f4 = Fraction(str(o)) * 10 ** self.scale
            if f4.denominator == 1 and f4 == 0:
                zero = seq_eq(self.digs, "0" * len(self.digs))
                return {"lt": False, "le": zero, "gt": bnot(zero), "ge": True}[op]
            if f4 < 0:
                return op in ("gt", "ge")
            a, b = z3.ToReal(self.scaled()), z3.RealVal(str(f4))
            del f
        else:
            return NotImplemented
        e = {"lt": a < b, "le": a <= b, "gt": a > b, "ge": a >= b,
             "eq": a == b}[op]
        return SymBool.of(z3.simplify(e))

    def __eq__(self, o):
        return self._rel(o, "eq")

    def __ne__(self, o):
        r = self._rel(o, "eq")
        return r if r is NotImplemented else bnot(r)

    def __lt__(self, o):
        return self._rel(o, "lt")

    def __le__(self, o):
        return self._rel(o, "le")

    def __gt__(self, o):
        return self._rel(o, "gt")

    def __ge__(self, o):
        return self._rel(o, "ge")

    def __bool__(self):
        return not bool(self._rel(0, "eq"))

    def __hash__(self):
        core.ENGINE.abort(Unsupported("hash of a symbolic number"))

    def _r(self):
        return SymReal(self.real())

    def __add__(self, o):
        return self._r() + o
    __radd__ = __add__

    def __sub__(self, o):
        return self._r() - o

    def __rsub__(self, o):
        return o - self._r()

    def __mul__(self, o):
        return self._r() * o
    __rmul__ = __mul__

    def __truediv__(self, o):
        return self._r() / o

    def __rtruediv__(self, o):
        return o / self._r()

    def __neg__(self):
        return -self._r()

    def __pos__(self):
        return self

    def __float__(self):
        core.ENGINE.abort(Unsupported("native float() of a symbolic number"))
    __int__ = __float__
    __index__ = __float__

    def __str__(self):
        core.ENGINE.abort(Unsupported("native str() of a symbolic number"))

    def __repr__(self):
        return "<SymDec>"

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self

    def __reduce_ex__(self, p):
        core.ENGINE.abort(Unsupported("pickle of a symbolic number"))

    def format_fixed(self, prec):
        """'%.<prec>f' as a string."""
        if prec < self.scale:
            extra = self.digs[len(self.digs) - (self.scale - prec):]
            if not seq_eq(extra, "0" * len(extra)):
                core.ENGINE.abort(Unsupported("rounding a symbolic number"))
            digs = list(self.digs[:len(self.digs) - (self.scale - prec)])
            sc = prec
        else:
            digs = list(self.digs) + ["0"] * (prec - self.scale)
            sc = prec
        ints = digs[:len(digs) - sc] or ["0"]
        frac = digs[len(digs) - sc:]
        while len(ints) > 1 and char_eq(ints[0], "0"):
            ints.pop(0)
        return mk(ints + (["."] if sc else []) + frac)

    def shortest(self):
        """repr() of the float (magnitudes within the fixed notation)."""
        ints = list(self.digs[:len(self.digs) - self.scale]) or ["0"]
        frac = list(self.digs[len(self.digs) - self.scale:]) if self.scale else []
        while len(ints) > 1 and char_eq(ints[0], "0"):
            ints.pop(0)
        while len(frac) > 1 and char_eq(frac[-1], "0"):
            frac.pop()
        if seq_eq(ints, "0") and len(frac) > 4 and seq_eq(frac[:4], "0000"):
            core.ENGINE.abort(Unsupported("exponent notation"))
        return mk(ints + ["."] + (frac or ["0"]))


def sym_float(s):
    """float(symbolic string)."""
    t = s.strip()
    if type(t) is str:
        return float(t)
    it = list(t.it)
    digs, frac, seen, i = [], 0, False, 0
    if char_in_set(it[0], "+-"):
        if char_eq(it[0], "-"):
            core.ENGINE.abort(Unsupported("negative symbolic float"))
        i = 1
    for c in it[i:]:
        if char_in_set(c, "0123456789"):
            digs.append(c)
            if seen:
                frac += 1
        elif char_eq(c, "."):
            if seen:
                raise ValueError("could not convert string to float")
            seen = True
        elif char_pred(c, ("py", "floatchars"),
                       lambda x: x.isdigit() or x in "eE_infatyINFATY+-"):
            core.ENGINE.abort(Unsupported("unusual float literal"))
        else:
            raise ValueError("could not convert string to float")
    if not digs:
        raise ValueError("could not convert string to float")
    return SymDec(digs, frac)


class SymInt(SymDec):
    """A non-negative integer with symbolic digits."""
    __slots__ = ()

    @property
    def __class__(self):
        return int

    def __index__(self):
        return int("".join(d if type(d) is str else concretize_char(d)
                           for d in self.digs))
    __int__ = __index__

    def shortest(self):
        return str(int(self))


DECS = frozenset((SymDec, SymInt))


class SymReal:
    """A real number as a z3 term (models the float computations of the code exactly)."""
    __slots__ = ("e", "whole")

    def __init__(self, e, whole=False):
        self.e = e
        self.whole = whole

    @property
    def __class__(self):
        return int if self.whole else float

    @staticmethod
    def term(o):
        if type(o) is SymReal:
            return o.e
        if type(o) in DECS:
            return o.real()
        if type(o) is SymBool:
            o = int(bool(o))
        if isinstance(o, (int, float)):
            if o != o or o in (float("inf"), float("-inf")):
                return None
            return z3.RealVal(str(Fraction(o)))
        return None

    def _bin(self, o, f):
        t = SymReal.term(o)
        if t is None:
            return NotImplemented
        return SymReal(z3.simplify(f(self.e, t)), self.whole and (
            type(o) is int or type(o) is SymReal and o.whole))

    def __add__(self, o):
        return self._bin(o, lambda a, b: a + b)
    __radd__ = __add__

    def __sub__(self, o):
        return self._bin(o, lambda a, b: a - b)

    def __rsub__(self, o):
        return self._bin(o, lambda a, b: b - a)

    def __mul__(self, o):
        return self._bin(o, lambda a, b: a * b)
    __rmul__ = __mul__

    def __truediv__(self, o):
        t = SymReal.term(o)
        if t is None:
            return NotImplemented
        if SymBool.of(z3.simplify(t == 0)):
            raise ZeroDivisionError("float division by zero")
        return SymReal(z3.simplify(self.e / t))

    def __rtruediv__(self, o):
        return SymReal(SymReal.term(o)) / self

    def __neg__(self):
        return SymReal(z3.simplify(-self.e), self.whole)

    def __abs__(self):
        return SymReal(z3.simplify(z3.If(self.e >= 0, self.e, -self.e)))

    def _rel(self, o, f):
        t = SymReal.term(o)
        if t is None:
            if isinstance(o, float):
                if o == float("inf"):
                    return f(0, 1)
                if o == float("-inf"):
                    return f(1, 0)
            return NotImplemented
        return SymBool.of(z3.simplify(f(self.e, t)))

    def __eq__(self, o):
        return self._rel(o, lambda a, b: a == b)

    def __ne__(self, o):
        return self._rel(o, lambda a, b: a != b)

    def __lt__(self, o):
        return self._rel(o, lambda a, b: a < b)

    def __le__(self, o):
        return self._rel(o, lambda a, b: a <= b)

    def __gt__(self, o):
        return self._rel(o, lambda a, b: a > b)

    def __ge__(self, o):
        return self._rel(o, lambda a, b: a >= b)

    def __bool__(self):
        return bool(self != 0)

    def __hash__(self):
        core.ENGINE.abort(Unsupported("hash of a symbolic real"))

    def floor(self, lazy=False):
        """
        Concretise floor(self) by forking.  If lazy, values other than -8..7 remain
        symbolic.
        """
        n = 8 if lazy else 64
        if SymBool.of(z3.simplify(self.e >= 0)):
            for k in range(n):
                if SymBool.of(z3.simplify(self.e < k + 1)):
                    return k
        else:
            for k in range(-1, -n - 1, -1):
                if SymBool.of(z3.simplify(self.e >= k)):
                    return k
        if lazy:
            return SymReal(z3.ToReal(z3.ToInt(self.e)), True)
        core.ENGINE.abort(Unsupported("floor of an unbounded real"))

    def trunc(self):
        if self.whole:
            return self
        if self < 0:
            return -((-self).floor(True))
        return self.floor(True)

    def __int__(self):
        if self < 0:
            return -((-self).floor())
        return self.floor()

    def __index__(self):
        if not self.whole:
            raise TypeError("'float' object cannot be interpreted as an integer")
        return self.floor()

    __trunc__ = __int__

    def __floor__(self):
        return self.floor()

    def __ceil__(self):
        return -((-self).floor())

    def __round__(self, nd=None):
        core.ENGINE.abort(Unsupported("round of a symbolic real"))

    def __float__(self):
        core.ENGINE.abort(Unsupported("native float() of a symbolic real"))

    def __repr__(self):
        return "<SymReal>"

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self


# --------------------------------------------------------------------------
# hashes
# --------------------------------------------------------------------------
class SymHash:
    """
    An uninterpreted hash value; equality is structural (hash functions are
    modelled as injective: collisions of unequal values are outside the claim).
    """
    __slots__ = ("key",)

    def __init__(self, key):
        self.key = key

    @property
    def __class__(self):
        return int

    def __eq__(self, o):
        if type(o) is SymHash:
            return hkey_eq(self.key, o.key)
        if isinstance(o, int):
            return hkey_eq(self.key, ("i", int(o)))
        return NotImplemented

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else bnot(r)

    def __hash__(self):
        return 0

    def _comb(self, o, op):
        k = o.key if type(o) is SymHash else ("i", int(o))
        return SymHash((op, self.key, k))

    def __xor__(self, o):
        return self._comb(o, "^")

    def __rxor__(self, o):
        return self._comb(o, "^")

    def __add__(self, o):
        return self._comb(o, "+")
    __radd__ = __add__

    def __mul__(self, o):
        return self._comb(o, "*")
    __rmul__ = __mul__

    def __and__(self, o):
        return self._comb(o, "&")
    __rand__ = __and__

    def __mod__(self, o):
        return self._comb(o, "%")

    def __sub__(self, o):
        return self._comb(o, "-")

    def __int__(self):
        core.ENGINE.abort(Unsupported("integer value of a hash"))
    __index__ = __int__

    def __repr__(self):
        return "<SymHash %r>" % (self.key,)


def hkey_eq(a, b):
    if a[0] != b[0]:
        return False
    k = a[0]
    if k == "t":
        if len(a[1]) != len(b[1]):
            return False
        return band(*[hkey_eq(x, y) for x, y in zip(a[1], b[1])])
    if k == "fs":
        if len(a[1]) != len(b[1]):
            return False
        # equality of sets: every element of one has a partner in the other
        return band(*[bor(*[hkey_eq(x, y) for y in b[1]]) for x in a[1]],
                    *[bor(*[hkey_eq(x, y) for y in a[1]]) for x in b[1]])
    if k in "^+*&":
        return bor(band(hkey_eq(a[1], b[1]), hkey_eq(a[2], b[2])),
                   band(hkey_eq(a[1], b[2]), hkey_eq(a[2], b[1])))
    if k in "%-":
        return band(hkey_eq(a[1], b[1]), hkey_eq(a[2], b[2]))
    return a[1] == b[1]


def hash_key(x):
    t = type(x)
    if t is str or t is SymStr:
        return ("s", x)
    if t is SymHash:
        return x.key
    if t is SymBool:
        return ("d", int(bool(x)))
    if t in DECS or t is SymReal:
        return ("d", x)
    if t is float or t is int or t is bool:
        return ("d", x)
    if t is tuple:
        return ("t", tuple(hash_key(y) for y in x))
    if t is frozenset:
        return ("fs", tuple(hash_key(y) for y in x))
    if t is SymFrozenSet:
        return ("fs", tuple(h for h in x._d._h))
    if x is None or isinstance(x, type):
        return ("o", id(x))
    f = t.__hash__
    if f is None:
        raise TypeError("unhashable type: '%s'" % t.__name__)
    if f is object.__hash__:
        return ("o", id(x))
    if t.__module__ == "builtins":
        return ("n", x)
    r = f(x)
    if type(r) is SymHash:
        return r.key
    if not isinstance(r, int):
        raise TypeError("__hash__ method should return an integer")
    return ("i", r)


# --------------------------------------------------------------------------
# containers
# --------------------------------------------------------------------------
_MISSING = object()


class SymDict:
    """Insertion-ordered dictionary whose lookups fork on symbolic key equality."""

    def __init__(self, *a, **kw):
        self._k, self._v, self._h = [], [], []
        if len(a) > 1:
            raise TypeError("dict expected at most 1 argument, got %d" % len(a))
        if a:
            self.update(a[0])
        for k, v in kw.items():
            self[k] = v

    @property
    def __class__(self):
        return dict

    def _find(self, key):
        h = hash_key(key)
        # objects can change their hash while they are keys
        for i, k in enumerate(self._k):
            if k is key and hkey_eq(self._h[i], h):
                return i
        for i, k in enumerate(self._k):
            if k is not key and hkey_eq(self._h[i], h):
                if k == key:
                    return i
        return -1

    def __getitem__(self, key):
        i = self._find(key)
        if i < 0:
            m = getattr(type(self), "__missing__", None)
            if m is not None:
                return m(self, key)
            raise KeyError(key)
        return self._v[i]

    def __setitem__(self, key, value):
        i = self._find(key)
        if i >= 0:
            self._v[i] = value
        else:
            h = hash_key(key)
            self._k.append(key)
            self._v.append(value)
            self._h.append(h)

    def __delitem__(self, key):
        i = self._find(key)
        if i < 0:
            raise KeyError(key)
        del self._k[i], self._v[i], self._h[i]

    def __contains__(self, key):
        return self._find(key) >= 0

    def __len__(self):
        return len(self._k)

    def __iter__(self):
        n = len(self._k)
        i = 0
        while i < len(self._k):
            yield self._k[i]
            if len(self._k) != n:
                raise RuntimeError("dictionary changed size during iteration")
            i += 1

    def __reversed__(self):
        return iter(self._k[::-1])

    def keys(self):
        return DictView(self, "k")

    def values(self):
        return DictView(self, "v")

    def items(self):
        return DictView(self, "i")

    iterkeys, itervalues, iteritems = keys, values, items

    def get(self, key, default=None):
        i = self._find(key)
        return default if i < 0 else self._v[i]

    def setdefault(self, key, default=None):
        i = self._find(key)
        if i >= 0:
            return self._v[i]
        self[key] = default
        return default

    def pop(self, key, default=_MISSING):
        i = self._find(key)
        if i < 0:
            if default is _MISSING:
                raise KeyError(key)
            return default
        v = self._v[i]
        del self._k[i], self._v[i], self._h[i]
        return v

    def popitem(self):
        if not self._k:
            raise KeyError("popitem(): dictionary is empty")
        self._h.pop()
        return self._k.pop(), self._v.pop()

    def clear(self):
        del self._k[:], self._v[:], self._h[:]

    def update(self, *a, **kw):
        if a:
            o = a[0]
            if hasattr(o, "keys"):
                for k in o.keys():
                    self[k] = o[k]
            else:
                for k, v in o:
                    self[k] = v
        for k, v in kw.items():
            self[k] = v

    def copy(self):
        d = type(self).__new__(type(self))
        d.__dict__.update(self.__dict__)
        d._k, d._v, d._h = list(self._k), list(self._v), list(self._h)
        return d

    __copy__ = copy

    def __deepcopy__(self, memo):
        import copy
        d = type(self).__new__(type(self))
        memo[id(self)] = d
        d.__dict__.update(self.__dict__)
        d._k, d._v, d._h = [], [], []
        for k, v in list(zip(self._k, self._v)):
            d[copy.deepcopy(k, memo)] = copy.deepcopy(v, memo)
        return d

    def __reduce_ex__(self, proto):
        return (type(self), (), None, None, iter(list(zip(self._k, self._v))))

    @classmethod
    def fromkeys(cls, ks, v=None):
        d = cls()
        for k in ks:
            d[k] = v
        return d

    def __eq__(self, o):
        if not isinstance(o, dict):
            return NotImplemented
        if len(self) != len(o):
            return False
        for k, v in zip(self._k, self._v):
            if isinstance(o, SymDict):
                i = o._find(k)
                if i < 0 or not (o._v[i] is v or o._v[i] == v):
                    return False
            elif k not in o or not o[k] == v:
                return False
        return True

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else not r

    __hash__ = None

    def __or__(self, o):
        d = self.copy()
        d.update(o)
        return d

    def __ior__(self, o):
        self.update(o)
        return self

    def __repr__(self):
        return "{%s}" % ", ".join("%r: %r" % kv for kv in zip(self._k, self._v))


class SymDefaultDict(SymDict):
    def __init__(self, factory=None, *a, **kw):
        self.default_factory = factory
        SymDict.__init__(self, *a, **kw)

    def __missing__(self, key):
        if self.default_factory is None:
            raise KeyError(key)
        v = self[key] = self.default_factory()
        return v

    def __reduce_ex__(self, proto):
        return (type(self), (self.default_factory,), None, None,
                iter(list(zip(self._k, self._v))))


class SymCounter(SymDict):
    def __init__(self, it=None, **kw):
        SymDict.__init__(self)
        if it is not None:
            self.update(it)
        if kw:
            self.update(kw)

    def __missing__(self, key):
        return 0

    def update(self, it=None, **kw):
        if it is not None:
            if hasattr(it, "items"):
                for k, v in it.items():
                    self[k] = self[k] + v
            else:
                for k in it:
                    self[k] = self[k] + 1
        for k, v in kw.items():
            self[k] = self[k] + v

    def elements(self):
        for k, v in zip(list(self._k), list(self._v)):
            for _ in range(v):
                yield k

    def most_common(self, n=None):
        r = sorted(self.items(), key=lambda kv: -kv[1])
        return r[:n] if n is not None else r


class SymOrderedDict(SymDict):
    def move_to_end(self, key, last=True):
        i = self._find(key)
        if i < 0:
            raise KeyError(key)
        k, v, h = self._k.pop(i), self._v.pop(i), self._h.pop(i)
        j = len(self._k) if last else 0
        self._k.insert(j, k)
        self._v.insert(j, v)
        self._h.insert(j, h)

    def popitem(self, last=True):
        if last:
            return SymDict.popitem(self)
        self._h.pop(0)
        return self._k.pop(0), self._v.pop(0)


class DictView:
    def __init__(self, d, kind):
        self._d = d
        self._kind = kind

    def __iter__(self):
        d = self._d
        for k in d:
            if self._kind == "k":
                yield k
            else:
                v = d._v[[j for j, x in enumerate(d._k) if x is k][0]]
                yield v if self._kind == "v" else (k, v)

    def __len__(self):
        return len(self._d)

    def __contains__(self, x):
        if self._kind == "k":
            return x in self._d
        return any(x is y or x == y for y in self)

    def __reversed__(self):
        return iter(list(self)[::-1])

    def __repr__(self):
        return "dict_view(%r)" % list(self)

    def _set(self):
        return SymSet(self)

    def __eq__(self, o):
        return SymSet(self) == SymSet(o)

    __hash__ = None

    def __and__(self, o):
        return SymSet(self) & SymSet(o)

    def __or__(self, o):
        return SymSet(self) | SymSet(o)

    def __sub__(self, o):
        return SymSet(self) - SymSet(o)


class SymSet:
    """Set with insertion order whose membership forks on symbolic equality."""

    def __init__(self, it=()):
        self._d = SymDict()
        for x in it:
            self._d[x] = None

    @property
    def __class__(self):
        return set

    def __iter__(self):
        return iter(self._d)

    def __len__(self):
        return len(self._d)

    def __contains__(self, x):
        return x in self._d

    def add(self, x):
        if x not in self._d:
            self._d[x] = None

    def discard(self, x):
        self._d.pop(x, None)

    def remove(self, x):
        self._d.pop(x)

    def pop(self):
        return self._d.popitem()[0]

    def clear(self):
        self._d.clear()

    def update(self, *its):
        for it in its:
            for x in it:
                self.add(x)

    def copy(self):
        return type(self)(self)

    __copy__ = copy

    def __deepcopy__(self, memo):
        import copy
        return type(self)([copy.deepcopy(x, memo) for x in self])

    def __reduce_ex__(self, proto):
        return (type(self), (list(self),))

    def union(self, *its):
        r = type(self)(self)
        for it in its:
            for x in it:
                SymSet.add(r, x)
        return r

    def intersection(self, *its):
        its = [SymSet(i) for i in its]
        return type(self)([x for x in self if all(x in i for i in its)])

    def difference(self, *its):
        its = [SymSet(i) for i in its]
        return type(self)([x for x in self if not any(x in i for i in its)])

    def symmetric_difference(self, o):
        o = SymSet(o)
        return (self - o) | (o - self)

    def issubset(self, o):
        o = SymSet(o)
        return all(x in o for x in self)

    def issuperset(self, o):
        return all(x in self for x in o)

    def isdisjoint(self, o):
        return not any(x in self for x in o)

    def difference_update(self, *its):
        for it in its:
            for x in list(it):
                self.discard(x)

    def intersection_update(self, *its):
        keep = self.intersection(*its)
        self._d = keep._d

    def __or__(self, o):
        return self.union(o)

    def __and__(self, o):
        return self.intersection(o)

    def __sub__(self, o):
        return self.difference(o)

    def __xor__(self, o):
        return self.symmetric_difference(o)

    def __ior__(self, o):
        self.update(o)
        return self

    def __isub__(self, o):
        self.difference_update(o)
        return self

    def __iand__(self, o):
        self.intersection_update(o)
        return self

    def __eq__(self, o):
        if not isinstance(o, (set, frozenset)):
            return NotImplemented
        return len(self) == len(o) and all(x in self for x in o)

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else not r

    def __le__(self, o):
        return self.issubset(o)

    def __lt__(self, o):
        return len(self) < len(o) and self.issubset(o)

    def __ge__(self, o):
        return self.issuperset(o)

    def __gt__(self, o):
        return len(self) > len(o) and self.issuperset(o)

    __hash__ = None

    def __repr__(self):
        return "{%s}" % ", ".join(map(repr, self))


class SymFrozenSet(SymSet):
    @property
    def __class__(self):
        return frozenset

    def __hash__(self):
        core.ENGINE.abort(Unsupported("native hash of a frozenset"))


_SYMS = (SymStr, SymBool, SymDec, SymReal, SymHash)
