"""
Run-time support for instrumented code: the operations that CPython implements
in C for `str`, `dict`, `set`, ... re-expressed so that they accept proxies.
Every function falls through to the built-in when no symbolic value is involved.
"""
import builtins
import collections as _collections
import string as _string
import types

from . import core, sym
from .core import SymBool, Unsupported, bor, bnot, band
from .sym import (SymStr, SymDec, DECS, SymReal, SymHash, SymDict, SymSet, SymFrozenSet,
                  SymDefaultDict, SymCounter, SymOrderedDict, Opq, mk, items_of,
                  lift, is_sym, char_eq, char_in_set)

STR_METHODS = frozenset(n for n in dir(str) if not n.startswith("__"))
_MISSING = object()


# ---- conversions -----------------------------------------------------------
def str_(x="", *a):
    t = type(x)
    if t is str or t is SymStr:
        return x
    if a or t in (int, float, bytes, type, types.FunctionType, types.BuiltinFunctionType):
        return builtins.str(x, *a)
    if t is SymBool:
        return "True" if x else "False"
    if t in DECS:
        return x.shortest()
    if t is SymHash:
        return SymStr((Opq(x.key),))
    if t is SymReal:
        core.ENGINE.abort(Unsupported("text of a symbolic real"))
    f = t.__str__
    if f is object.__str__ or t in (list, tuple, dict):
        return repr_(x)
    if isinstance(x, BaseException) and f in (BaseException.__str__, KeyError.__str__):
        if len(x.args) == 1:
            return repr_(x.args[0]) if isinstance(x, KeyError) else str_(x.args[0])
        return repr_(x.args) if x.args else ""
    if t in (SymDict, SymSet, SymFrozenSet, SymOrderedDict, SymCounter, SymDefaultDict):
        return repr_(x)
    if isinstance(x, type):
        return builtins.str(x)
    return f(x)


def repr_(x):
    t = type(x)
    if t is SymStr:
        return repr_sym(x)
    if t is SymBool:
        return "True" if x else "False"
    if t in DECS:
        return x.shortest()
    if t is SymHash:
        return SymStr((Opq(x.key),))
    if t is list:
        return _seq_repr("[", x, "]")
    if t is tuple:
        return _seq_repr("(", x, ",)" if len(x) == 1 else ")")
    if t is dict or issubclass(t, SymDict):
        return _seq_repr("{", [mk(items_of(repr_(k)) + (":", " ") + items_of(repr_(v)))
                               for k, v in x.items()], "}", raw=True)
    if t is SymSet:
        return _seq_repr("{", list(x), "}") if len(x) else "set()"
    if t is SymFrozenSet:
        return "frozenset({" + cat(_seq_repr("", list(x), "")) + "})" if len(x) \
            else "frozenset()"
    if t.__module__ == "builtins" or isinstance(x, type):
        return builtins.repr(x)
    f = t.__repr__
    if isinstance(x, BaseException) and f is BaseException.__repr__:
        return cat(t.__name__, repr_(x.args) if len(x.args) != 1 else
                   cat("(", repr_(x.args[0]), ")"))
    if f is object.__repr__:
        return f(x)
    return f(x)


def _seq_repr(a, xs, b, raw=False):
    out = list(a)
    for i, x in enumerate(xs):
        if i:
            out.extend(", ")
        out.extend(items_of(x if raw else repr_(x)))
    out.extend(b)
    return mk(out)


def cat(*parts):
    out = []
    for p in parts:
        out.extend(items_of(p))
    return mk(out)


def repr_sym(s):
    has1 = bool(s._contains("'"))
    has2 = bool(s._contains('"')) if has1 else False
    q = '"' if has1 and not has2 else "'"
    out = [q]
    for c in s.it:
        if type(c) is str:
            if c == q or c == "\\":
                out.append("\\")
                out.append(c)
            else:
                out.extend(builtins.repr(c)[1:-1] if c not in "'\"" else c)
            continue
        if type(c) is Opq:
            out.append(c)
        elif char_in_set(c, q + "\\"):
            out.extend(("\\", c))
        elif sym.char_pred(c, ("py", "isprintable"), builtins.str.isprintable):
            out.append(c)
        else:
            out.extend(builtins.repr(sym.concretize_char(c))[1:-1])
    out.append(q)
    return mk(out)


def int_(x=0, *a):
    if type(x) is SymStr:
        t = x.strip()
        if type(t) is SymStr:
            neg = False
            if len(t) and char_in_set(t.it[0], "+-"):
                neg = bool(t[0] == "-")
                t = t[1:]
            if type(t) is SymStr:
                if len(t) and not t.isdecimal():
                    if t._contains("_"):
                        core.ENGINE.abort(Unsupported("unusual int literal"))
                    raise ValueError("invalid literal for int()")
                if not neg and not a and all(
                        type(d) is str or char_in_set(d, "0123456789")
                        for d in t.it):
                    return sym.SymInt(t.it, 0)
            t = sym.concretize(t)
            if neg:
                t = "-" + t
        return builtins.int(t, *a)
    if type(x) is SymReal and not a:
        return x.trunc()
    return builtins.int(x, *a)


def float_(x=0.0):
    t = type(x)
    if t is SymStr:
        return sym.sym_float(x)
    if t is SymReal and x.whole:
        return SymReal(x.e)
    if t in DECS or t is SymReal:
        return x
    return builtins.float(x)


def bool_(x=False):
    if type(x) is SymBool:
        return x
    return builtins.bool(x)


def hash_(x):
    t = type(x)
    if t is int or t is builtins.bool or t is float or x is None:
        return builtins.hash(x)
    return SymHash(sym.hash_key(x))


def ord_(x):
    if type(x) is SymStr:
        if len(x) != 1:
            raise TypeError("ord() expected a character")
        return builtins.ord(sym.concretize_char(x.it[0]))
    return builtins.ord(x)


def type_(x, *a):
    if a:
        return builtins.type(x, *a)
    t = builtins.type(x)
    if t in sym._SYMS or t in _CONTAINER_TYPES:
        return x.__class__
    return t


_CONTAINER_TYPES = (SymDict, SymSet, SymFrozenSet)


def format_(x, spec=""):
    if type(x) is SymStr or type(x) in DECS or type(x) is SymBool or type(x) is SymHash:
        return _format_spec(x, spec)
    if type(spec) is SymStr:
        core.ENGINE.abort(Unsupported("symbolic format spec"))
    if spec == "" and not isinstance(x, (int, float, str)):
        if type(x).__format__ is object.__format__:
            return str_(x)
    return builtins.format(x, spec)


def _format_spec(x, spec):
    if type(x) is SymStr and spec in ("", "s"):
        return x
    if type(x) in DECS:
        if spec == "":
            return x.shortest()
        if spec[0] == "." and spec[-1] == "f":
            return x.format_fixed(builtins.int(spec[1:-1]))
    if spec == "":
        return str_(x)
    core.ENGINE.abort(Unsupported("format spec %r" % spec))


def abs_(x):
    return builtins.abs(x)


def isinstance_(x, t):
    return builtins.isinstance(x, t)


def sum_(it, start=0):
    for x in it:
        start = start + x
    return start


def round_(x, nd=None):
    return builtins.round(x) if nd is None else builtins.round(x, nd)


def input_contains(*a):
    raise NotImplementedError


# ---- operators -------------------------------------------------------------
def contains(container, item):
    tc = type(container)
    if tc is str:
        if type(item) is SymStr:
            if len(item.it) == 1:
                return char_in_set(item.it[0], container)
            return lift(container)._contains(item)
        return item in container
    if tc is SymStr:
        if not isinstance(item, str):
            raise TypeError("'in <string>' requires string as left operand")
        return container._contains(item)
    if type(item) is SymStr:
        if tc in (set, frozenset):
            return bor(*[item == x for x in container if isinstance(x, str)])
        if tc is dict:
            return bor(*[item == x for x in container if isinstance(x, str)])
        if tc in (list, tuple):
            return any(x is item or x == item for x in container)
    return item in container


def not_contains(container, item):
    return bnot(contains(container, item))


def mod(l, r):
    tl = type(l)
    if tl is str:
        if not _deep_sym(r):
            return l % r
        return _percent(l, r)
    if tl is SymStr:
        return _percent(l, r)
    return l % r


_PLAIN = (int, float, str, bool, type(None), bytes)


def _deep_sym(r):
    if type(r) is tuple:
        return any(type(x) not in _PLAIN for x in r)
    return type(r) not in _PLAIN


def _percent(fmt, args):
    mapping = None
    if isinstance(args, dict):
        mapping = args
    if type(args) is not tuple:
        args = (args,)
    it = items_of(fmt)
    out, i, k, n = [], 0, 0, len(it)

    def arg():
        nonlocal k
        if k >= len(args):
            raise TypeError("not enough arguments for format string")
        k += 1
        return args[k - 1]
    while i < n:
        c = it[i]
        if type(c) is not str:
            if char_eq(c, "%"):
                core.ENGINE.abort(Unsupported("symbolic %-directive"))
            out.append(c)
            i += 1
            continue
        if c != "%":
            out.append(c)
            i += 1
            continue
        j = i + 1
        spec = ""
        key = None
        while j < n and type(it[j]) is str and it[j] in "#0- +.0123456789*(":
            if it[j] == "(":
                e = j
                while it[e] != ")":
                    e += 1
                key = "".join(it[j + 1:e])
                j = e + 1
                continue
            spec += it[j]
            j += 1
        if j >= n:
            raise ValueError("incomplete format")
        conv = it[j]
        i = j + 1
        if conv == "%":
            out.append("%")
            continue
        if "*" in spec:
            core.ENGINE.abort(Unsupported("%* format"))
        a = mapping[key] if key is not None else arg()
        if conv in "sra" and not spec:
            out.extend(items_of(str_(a) if conv == "s" else repr_(a)))
        elif type(a) in DECS:
            if conv in "fF" and (not spec or spec[0] == "."):
                out.extend(items_of(a.format_fixed(builtins.int(spec[1:] or 0) if spec else 6)))
            elif conv in "di":
                out.extend(builtins.str(builtins.int(a)))
            else:
                core.ENGINE.abort(Unsupported("%%%s%s of a symbolic number" % (spec, conv)))
        elif type(a) is SymStr or type(a) is SymReal or type(a) is SymHash:
            if conv == "d" and type(a) is SymStr:
                raise TypeError("%d format: a real number is required, not str")
            core.ENGINE.abort(Unsupported("%%%s%s" % (spec, conv)))
        else:
            if type(a) is SymBool:
                a = bool(a)
            out.extend(("%" + spec + conv) % (a,))
    if mapping is None and k < len(args):
        raise TypeError("not all arguments converted during string formatting")
    return mk(out)


def fstr(*parts):
    """f-string: parts are str constants or (value, conversion, spec) triples."""
    out = []
    for p in parts:
        if type(p) is str:
            out.extend(p)
            continue
        v, conv, spec = p
        if conv == "s":
            v = str_(v)
        elif conv == "r":
            v = repr_(v)
        elif conv == "a":
            v = repr_(v)
        out.extend(items_of(format_(v, spec)))
    return mk(out)


# ---- methods of str --------------------------------------------------------
def _any_sym(a):
    for x in a:
        t = type(x)
        if t is SymStr or t in DECS or t is SymBool:
            return True
        if (t is tuple or t is list) and _any_sym(x):
            return True
    return False


def cm(obj, name, *a, **k):
    """obj.name(*a, **k) for a name that is a method of str."""
    if type(obj) is str:
        return str_call(obj, name, a, k)
    if obj is builtins.str or obj is str_:
        return str_call(a[0], name, a[1:], k) if type(a[0]) is str else \
            getattr(a[0], name)(*a[1:], **k)
    if name == "index" and type(obj) in (list, tuple) and a:
        # The error of the native method contains the item's repr, which is symbolic.
        n = len(obj)
        lo, hi = (list(a[1:]) + [0, n])[:2] if len(a) == 3 else (a[1] if len(a) > 1 else 0, n)
        for i in range(*slice(lo, hi).indices(n)):
            if obj[i] is a[0] or obj[i] == a[0]:
                return i
        raise ValueError("item is not in list")
    return getattr(obj, name)(*a, **k)


def str_call(obj, name, a, k):
    if name == "join":
        xs = a[0] if type(a[0]) in (list, tuple) else list(a[0])
        for x in xs:
            if type(x) is SymStr:
                return lift(obj).join(xs)
        return obj.join(xs)
    if name == "format":
        return format_template(obj, a, k)
    if name == "format_map":
        return format_template(obj, (), a[0])
    if a and _any_sym(a):
        return getattr(lift(obj), name)(*a, **k)
    return getattr(obj, name)(*a, **k)


def format_template(template, a, k):
    out = []
    auto = 0
    fm = _string.Formatter()
    for lit, field, spec, conv in fm.parse(template):
        out.extend(lit)
        if field is None:
            continue
        if field == "" or field[0] in ".[":
            field = builtins.str(auto) + field
            auto += 1
        v, _ = fm.get_field(field, a, k)
        if spec and "{" in spec:
            spec = format_template(spec, a, k)
        if conv == "s":
            v = str_(v)
        elif conv in ("r", "a"):
            v = repr_(v)
        out.extend(items_of(format_(v, spec)))
    return mk(out)


def am(obj, name):
    """obj.name for a name that is a method of str (not called on the spot)."""
    if type(obj) is str:
        return lambda *a, **k: str_call(obj, name, a, k)
    if obj is builtins.str or obj is str_:
        return lambda o, *a, **k: cm(o, name, *a, **k)
    return getattr(obj, name)


# ---- containers ------------------------------------------------------------
def dict_(*a, **k):
    return SymDict(*a, **k)


def mkdict(*items):
    """Dict display: items are (key, value) or (None-marker, mapping) pairs."""
    d = SymDict()
    for it in items:
        if len(it) == 1:
            d.update(it[0])
        else:
            d[it[0]] = it[1]
    return d


def mkset(*items):
    s = SymSet()
    for x in items:
        if type(x) is _Star:
            s.update(x.xs)
        else:
            s.add(x)
    return s


class _Star:
    def __init__(self, xs):
        self.xs = xs


star = _Star


def set_(it=()):
    return SymSet(it)


def frozenset_(it=()):
    return SymFrozenSet(it)


class CollectionsShim(types.ModuleType):
    pass


collections_shim = CollectionsShim("collections")
collections_shim.__dict__.update(_collections.__dict__)
collections_shim.OrderedDict = SymOrderedDict
collections_shim.defaultdict = SymDefaultDict
collections_shim.Counter = SymCounter


def any_(it):
    for x in it:
        if x:
            return True
    return False


def all_(it):
    for x in it:
        if not x:
            return False
    return True


# names in call position (and as arguments) that are replaced
CALLS = {"str": str_, "repr": repr_, "int": int_, "float": float_, "hash": hash_,
         "ord": ord_, "type": type_, "format": format_, "bool": bool_, "sum": sum_,
         "unicode": str_, "round": round_}
CONTAINER_CALLS = {"dict": dict_, "set": set_, "frozenset": frozenset_}
