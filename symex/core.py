"""
Symbolic execution engine for Python: path exploration decided by z3.

The code under analysis is the real source of /repo/jsgf (and of the pyparsing
release it runs on), executed by the ordinary interpreter on proxy values.
Every time the program needs the truth value of a symbolic condition, the
engine asks z3 which outcomes are feasible under the current path condition,
takes one and schedules the other.  Exploration is exhaustive: it stops when no
feasible alternative is left (or reports that it did not finish).
"""
import time

import z3


class EngineStop(BaseException):
    """Base class of engine control-flow exceptions (never caught by `except Exception`)."""


class PathPruned(EngineStop):
    """The path condition became infeasible through an assumption."""


class Unsupported(EngineStop):
    """An operation on a symbolic value that the engine cannot encode."""


class Inconclusive(EngineStop):
    """The solver answered unknown."""


class ViolationFound(EngineStop):
    def __init__(self, msg):
        super().__init__(msg)
        self.msg = msg


class BoundExceeded(EngineStop):
    """A stated exploration bound was exceeded on this path."""


# --------------------------------------------------------------------------
# Character universes
# --------------------------------------------------------------------------
class Universe:
    """The finite set of code points symbolic characters range over."""

    def __init__(self, name, n, allowed):
        self.name = name
        self.n = n
        self.bits = max(1, (n - 1).bit_length())
        self.sort = z3.BitVecSort(self.bits)
        self.allowed = self.mask_of(allowed)
        self._pred = {}
        self._expr = {}
        self._maps = {}
        self._mapexpr = {}
        self._pre = {}
        self.upper = None
        self.lower = None

    def mask_of(self, codes):
        buf = bytearray((self.n + 7) // 8)
        for c in codes:
            buf[c >> 3] |= 1 << (c & 7)
        return int.from_bytes(buf, "little")

    def pred(self, key, fn):
        """Mask of the code points whose character satisfies fn(str) (cached by key)."""
        m = self._pred.get(key)
        if m is None:
            allowed = self.allowed
            m = self.mask_of([c for c in self.codes(allowed) if fn(chr(c))])
            self._pred[key] = m
        return m

    def codes(self, mask):
        out = []
        b = mask.to_bytes((self.n + 7) // 8, "little")
        for i, byte in enumerate(b):
            if byte:
                for k in range(8):
                    if byte >> k & 1:
                        out.append(i * 8 + k)
        return out

    def ranges(self, mask):
        codes = self.codes(mask)
        out = []
        for c in codes:
            if out and out[-1][1] == c - 1:
                out[-1][1] = c
            else:
                out.append([c, c])
        return out

    def in_expr(self, var, mask):
        """z3 formula: var is in mask (assuming var is in the universe)."""
        key = (var.get_id(), mask)
        e = self._expr.get(key)
        if e is None:
            # encode the smaller of the two sides, relative to the allowed set
            r1 = self.ranges(mask)
            neg = self.ranges(self.allowed & ~mask)
            if len(neg) < len(r1):
                e = z3.Not(self._ranges_expr(var, neg))
            else:
                e = self._ranges_expr(var, r1)
            self._expr[key] = (e, var)
        else:
            e = e[0]
        return e

    def _ranges_expr(self, var, rs):
        parts = []
        for a, b in rs:
            if a == b:
                parts.append(var == z3.BitVecVal(a, self.bits))
            else:
                lo = z3.UGE(var, z3.BitVecVal(a, self.bits))
                hi = z3.ULE(var, z3.BitVecVal(b, self.bits))
                parts.append(z3.And(lo, hi) if a else hi)
        if not parts:
            return z3.BoolVal(False)
        return parts[0] if len(parts) == 1 else z3.Or(parts)

    # -- character maps (lower/upper) ------------------------------------
    def get_map(self, name):
        m = self._maps.get(name)
        if m is None:
            fn = {"lower": str.lower, "upper": str.upper, "swapcase": str.swapcase,
                  "casefold": str.casefold, "title": str.title}.get(name)
            if fn is None:      # composition "a>b": first a then b
                a, b = name.split(">", 1)
                ma, mb = self.get_map(a), self.get_map(b)
                m = {}
                for c in self.codes(self.allowed):
                    d = ma.get(c, c)
                    e = mb.get(d, d)
                    if e != c:
                        m[c] = e
            else:
                m = {}
                for c in self.codes(self.allowed):
                    d = fn(chr(c))
                    if len(d) != 1 or ord(d) >= self.n:
                        raise Unsupported("%s leaves the universe at %#x" % (name, c))
                    if ord(d) != c:
                        m[c] = ord(d)
            self._maps[name] = m
        return m

    def compose(self, first, second):
        if first is None:
            return second
        m1, m2 = self.get_map(first), self.get_map(second)
        if first == second:         # idempotent maps
            idem = all(m1.get(v, v) == v for v in m1.values())
            if idem:
                return first
        # does second(first(c)) == second(c) for every c?
        same = all(m2.get(m1.get(c, c), m1.get(c, c)) == m2.get(c, c)
                   for c in set(m1) | set(m2))
        if same:
            return second
        # does second leave the image of first alone?
        if not any(v in m2 for v in m1.values()) and \
                not any(c not in m1 for c in m2 if True and c not in m1):
            return first
        return first + ">" + second

    def preimage(self, mapname, mask):
        if mapname is None:
            return mask
        key = (mapname, mask)
        r = self._pre.get(key)
        if r is None:
            m = self.get_map(mapname)
            moved = self.mask_of(m.keys())
            r = mask & ~moved
            r |= self.mask_of([c for c, d in m.items() if mask >> d & 1])
            r &= self.allowed
            self._pre[key] = r
        return r

    def image(self, mapname, mask):
        if mapname is None:
            return mask
        m = self.get_map(mapname)
        moved = self.mask_of(m.keys())
        return (mask & ~moved) | self.mask_of(
            [d for c, d in m.items() if mask >> c & 1])

    def map_expr(self, var, mapname):
        if mapname is None:
            return var
        key = (var.get_id(), mapname)
        e = self._mapexpr.get(key)
        if e is None:
            m = self.get_map(mapname)
            groups = {}
            for c, d in m.items():
                groups.setdefault(d - c, []).append(c)
            expr = var
            for delta, cs in sorted(groups.items()):
                cond = self._ranges_expr(var, self.ranges(self.mask_of(cs)))
                expr = z3.If(cond, var + z3.BitVecVal(delta % (1 << self.bits),
                                                      self.bits), expr)
            self._mapexpr[key] = (expr, var)
            return expr
        return e[0]


def _length_preserving(c, n):
    ch = chr(c)
    for f in (str.lower, str.upper, str.swapcase, str.casefold, str.title):
        d = f(ch)
        if len(d) != 1 or ord(d) >= n:
            return False
    return True


_universes = {}


def universe(name):
    u = _universes.get(name)
    if u is None:
        if name == "ascii":
            u = Universe(name, 128, range(128))
        elif name == "latin":
            # Latin-1 without the characters whose case mappings leave Latin-1 or
            # change length (U+00B5, U+00DF, U+00FF)
            u = Universe(name, 256, [c for c in range(256)
                                     if _length_preserving(c, 256)])
        elif name == "unicode":
            u = Universe(name, 0x110000,
                         [c for c in range(0x110000) if not 0xD800 <= c <= 0xDFFF])
        else:
            raise ValueError(name)
        _universes[name] = u
    return u


# --------------------------------------------------------------------------
# Engine
# --------------------------------------------------------------------------
class Stats:
    FIELDS = ("paths", "completed", "pruned", "unsupported", "decisions", "forks",
              "queries", "assertions", "proved_by_path", "solver_time", "bound_hits",
              "max_depth", "path_timeouts")

    def __init__(self):
        for f in self.FIELDS:
            setattr(self, f, 0)

    def as_dict(self):
        return {f: getattr(self, f) for f in self.FIELDS}

    def merge(self, d):
        for f in self.FIELDS:
            if f == "max_depth":
                self.max_depth = max(self.max_depth, d[f])
            else:
                setattr(self, f, getattr(self, f) + d[f])


class Engine:
    """
    One engine per process.  `run_path(fn, prefix)` executes fn once following
    the decisions in prefix, and appends to self.pending the prefixes of the
    feasible alternatives it met.
    """

    def __init__(self, uni="latin", solver_timeout_ms=60000):
        self.u = universe(uni)
        self.solver = z3.Solver()
        self.solver.set("timeout", solver_timeout_ms)
        self.stats = Stats()
        self.pending = []
        self._stack_trace = []      # decisions for which solver levels exist
        self.path_active = False
        self.query_log = None

    # ---- path management ----
    def begin(self, prefix):
        # keep the solver levels shared with the previous path
        k = 0
        st = self._stack_trace
        while k < len(st) and k < len(prefix) and st[k] == prefix[k]:
            k += 1
        # Level k is reusable only if both paths have a decision there; always
        # drop at least the last level so that assertions after it are redone.
        if k == len(st) and k:
            pass
        n_pop = len(st) - k
        if n_pop:
            self.solver.pop(n_pop)
        del st[k:]
        self.shared = k             # levels already asserted
        self.prefix = prefix
        self.trace = []
        self.dom = {}
        self.vars = {}
        self.inputs = []
        self.names = {}
        self.cache = {}
        self.model = None
        self.aborted = None
        self.path_active = True
        self.hooks = 0
        self.base_assumes = []

    def _check(self, *assumptions):
        t = time.perf_counter()
        r = self.solver.check(*assumptions)
        self.stats.solver_time += time.perf_counter() - t
        self.stats.queries += 1
        if r == z3.unknown:
            self.abort(Inconclusive("solver returned unknown: %s"
                                    % self.solver.reason_unknown()))
        return r == z3.sat

    def abort(self, exc):
        self.aborted = exc
        raise exc

    def _live(self):
        if self.aborted is not None:
            raise self.aborted

    def _push(self, value, expr):
        """Record decision `value` and assert expr for it."""
        level = len(self.trace)
        self.trace.append(value)
        if level >= len(self._stack_trace):
            self.solver.push()
            self._stack_trace.append(value)
            if expr is not None:
                self.solver.add(expr)
        # else: the level is shared with the previous path and already asserted

    def get_model(self):
        if self.model is None:
            if not self._check():
                self.abort(PathPruned())
            self.model = self.solver.model()
        return self.model

    # ---- decisions ----
    def decide(self, expr, key=None):
        """Truth value of z3 Bool expr on this path."""
        self._live()
        if z3.is_true(expr):
            return True
        if z3.is_false(expr):
            return False
        eid = expr.get_id()
        c = self.cache.get(eid)
        if c is not None:
            return c[0]
        i = len(self.trace)
        if i < len(self.prefix):
            value = self.prefix[i]
            if i == len(self.prefix) - 1:
                self.model = None
            self._push(value, expr if value else z3.Not(expr))
        else:
            model = self.get_model()
            v = model.eval(expr, model_completion=True)
            if z3.is_true(v):
                side = True
            elif z3.is_false(v):
                side = False
            else:
                side = None
            if side is None:
                if self._check(expr):
                    side = True
                    self.model = self.solver.model()
                else:
                    side = False
            other = z3.Not(expr) if side else expr
            self.stats.decisions += 1
            if self._check(other):
                # both feasible: explore `side` now, the other later
                self.pending.append(self.trace + [not side])
                self.stats.forks += 1
            value = side
            self._push(value, expr if value else z3.Not(expr))
        # keep a reference to expr so that its id stays taken
        self.cache[eid] = (value, expr)
        if len(self.trace) > self.stats.max_depth:
            self.stats.max_depth = len(self.trace)
        return value

    def choose(self, n, name, var=None, lo=0):
        """n-way decision on a fresh integer variable in [lo, lo+n)."""
        self._live()
        if n <= 0:
            self.abort(PathPruned())
        if n == 1:
            return lo
        i = len(self.trace)
        v = var if var is not None else z3.Int(name)
        if i < len(self.prefix):
            value = self.prefix[i]
            if i == len(self.prefix) - 1:
                self.model = None
        else:
            self.stats.decisions += 1
            for k in range(n - 1, 0, -1):
                self.pending.append(self.trace + [k])
            self.stats.forks += n - 1
            value = 0
            self.model = None
        self._push(value, v == lo + value)
        if len(self.trace) > self.stats.max_depth:
            self.stats.max_depth = len(self.trace)
        return lo + value

    def assume(self, cond, fresh=False):
        """Add an assumption (z3 Bool or python bool) to the path condition."""
        self._live()
        if isinstance(cond, SymBool):
            cond = cond.expr()
        if cond is True:
            return
        if cond is False:
            self.abort(PathPruned())
        if z3.is_true(cond):
            return
        if z3.is_false(cond):
            self.abort(PathPruned())
        # An assumption is a level of its own with a forced decision, so that it
        # replays with the prefix.
        i = len(self.trace)
        if i < len(self.prefix):
            if i == len(self.prefix) - 1:
                self.model = None
            self._push(self.prefix[i], cond)
            return
        if self.model is not None and not z3.is_true(
                self.model.eval(cond, model_completion=True)):
            self.model = None
        self._push(True, cond)
        if self.model is None and not fresh:
            if not self._check():
                self.abort(PathPruned())
            self.model = self.solver.model()

    def restrict(self, var, mask):
        """Assume that the character variable var lies in mask."""
        cur = self.dom[var]
        if cur & mask == cur:
            return
        new = cur & mask
        if not new:
            self.abort(PathPruned())
        self.dom[var] = new
        self.assume(self.u.in_expr(self.vars[var], mask))

    def check(self, cond, msg):
        """Assert cond on this path: the solver must refute its negation."""
        self._live()
        if isinstance(cond, SymBool):
            e = cond.expr()
        else:
            e = cond
        if e is True or (not isinstance(e, bool) and z3.is_true(e)):
            self.stats.proved_by_path += 1
            return
        if e is False or (not isinstance(e, bool) and z3.is_false(e)):
            self.model = None
            self.get_model()
            self.abort(ViolationFound(msg))
        if len(self.trace) < len(self.prefix):
            return          # already discharged on the path this one forked from
        self.stats.assertions += 1
        neg = z3.Not(e)
        if self.query_log is not None:
            self.query_log(self.solver, neg)
        if self._check(neg):
            self.model = self.solver.model()
            self.abort(ViolationFound(msg))

    # ---- fresh variables ----
    def unique(self, name):
        n = self.names.get(name, 0)
        self.names[name] = n + 1
        return name if n == 0 else "%s#%d" % (name, n)

    def new_char(self, name, mask=None):
        v = z3.BitVec(name, self.u.bits)
        self.vars[name] = v
        mask = self.u.allowed if mask is None else mask & self.u.allowed
        self.dom[name] = mask
        full = (1 << self.u.n) - 1
        if mask != full or self.u.n != 1 << self.u.bits:
            self.assume(self._in_dom(v, mask), fresh=True)
        return Ch(name, None)

    def _in_dom(self, v, mask):
        return self.u._ranges_expr(v, self._cached_ranges(mask))

    _rc = {}

    def _cached_ranges(self, mask):
        r = self._rc.get(mask)
        if r is None:
            r = self._rc[mask] = self.u.ranges(mask)
        return r


ENGINE = None       # the active engine of this process


def engine():
    return ENGINE


def set_engine(e):
    global ENGINE
    ENGINE = e


# --------------------------------------------------------------------------
# Symbolic characters and booleans
# --------------------------------------------------------------------------
class Ch:
    """A symbolic character: variable name + case map applied to it."""
    __slots__ = ("var", "map")

    def __init__(self, var, map_):
        self.var = var
        self.map = map_

    def expr(self):
        e = ENGINE
        return e.u.map_expr(e.vars[self.var], self.map)

    def apply(self, mapname):
        e = ENGINE
        d = e.dom[self.var]
        comp = e.u.compose(self.map, mapname)
        if comp == self.map:
            return self
        # if no character of the domain is changed, keep the plain variable
        m = e.u.get_map(comp)
        moved = e.u._pred.get(("moved", comp))
        if moved is None:
            moved = e.u._pred[("moved", comp)] = e.u.mask_of(m.keys())
        if not d & moved:
            return Ch(self.var, None)
        return Ch(self.var, comp)

    def dom_image(self):
        e = ENGINE
        return e.u.image(self.map, e.dom[self.var])


class SymBool:
    """Symbolic truth value.  parts: list of CharIn (var, mask) conjuncts + exprs."""
    __slots__ = ("parts", "neg", "_e")

    def __init__(self, parts, neg=False):
        # conjunction of parts, negated if neg
        self.parts = parts
        self.neg = neg
        self._e = None

    @staticmethod
    def of(expr):
        if isinstance(expr, bool):
            return expr
        if isinstance(expr, SymBool):
            return expr
        if z3.is_true(expr):
            return True
        if z3.is_false(expr):
            return False
        return SymBool([expr])

    @staticmethod
    def char_in(var, mask):
        """Condition var in mask, simplified against the current domain."""
        dom = ENGINE.dom[var]
        if dom & mask == 0:
            return False
        if dom & ~mask == 0:
            return True
        return SymBool([(var, mask)])

    def expr(self):
        if self._e is None:
            es = []
            for p in self.parts:
                if isinstance(p, tuple):
                    es.append(ENGINE.u.in_expr(ENGINE.vars[p[0]], p[1]))
                else:
                    es.append(p)
            e = es[0] if len(es) == 1 else z3.And(es)
            self._e = z3.Not(e) if self.neg else e
        return self._e

    def __bool__(self):
        eng = ENGINE
        eng._live()
        # simplify against the current domains
        undecided = []
        for p in self.parts:
            if isinstance(p, tuple):
                dom = eng.dom[p[0]]
                if dom & p[1] == 0:
                    return self.neg
                if dom & ~p[1] == 0:
                    continue
            undecided.append(p)
        if not undecided:
            return not self.neg
        if len(undecided) == len(self.parts):
            e = self.expr()
            if self.neg:
                e = e.arg(0)
        else:
            sb = SymBool(undecided)
            e = sb.expr()
        val = eng.decide(e)
        if val:
            for p in undecided:
                if isinstance(p, tuple):
                    eng.dom[p[0]] &= p[1]
        elif len(undecided) == 1 and isinstance(undecided[0], tuple):
            eng.dom[undecided[0][0]] &= ~undecided[0][1]
        return (not val) if self.neg else val

    # formula-building operators (no forking)
    def __and__(self, o):
        return band(self, o)
    __rand__ = __and__

    def __or__(self, o):
        return bor(self, o)
    __ror__ = __or__

    def __xor__(self, o):
        return bnot(biff(self, o))
    __rxor__ = __xor__

    def __invert__(self):
        return bnot(self)

    def __eq__(self, o):
        return biff(self, o)

    def __ne__(self, o):
        return bnot(biff(self, o))

    def __hash__(self):
        raise Unsupported("hash of a symbolic bool")

    def __int__(self):
        return int(bool(self))
    __index__ = __int__

    def __add__(self, o):
        return int(bool(self)) + o
    __radd__ = __add__

    def __lt__(self, o):
        return bool(self) < o

    def __gt__(self, o):
        return bool(self) > o

    def __repr__(self):
        return "SymBool(%s)" % self.expr()

    def __str__(self):
        return str(bool(self))

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self

    @property
    def __class__(self):
        return bool


def bexpr(x):
    if isinstance(x, SymBool) or type(x) is SymBool:
        return x.expr()
    if isinstance(x, bool):
        return z3.BoolVal(x)
    return x


def bnot(x):
    if type(x) is SymBool:
        r = SymBool(x.parts, not x.neg)
        return r
    if isinstance(x, bool):
        return not x
    return SymBool.of(z3.Not(x))


def band(*xs):
    parts = []
    for x in xs:
        if type(x) is SymBool:
            if x.neg and len(x.parts) == 1 and isinstance(x.parts[0], tuple):
                v, m = x.parts[0]
                parts.append((v, ENGINE.u.allowed & ~m))
            elif x.neg:
                parts.append(x.expr())
            else:
                parts.extend(x.parts)
        elif x is False:
            return False
        elif x is True:
            continue
        elif isinstance(x, z3.BoolRef):
            parts.append(x)
        elif not x:
            return False
    if not parts:
        return True
    return SymBool(parts)


def bor(*xs):
    es = []
    for x in xs:
        if type(x) is SymBool:
            es.append(x.expr())
        elif x is True:
            return True
        elif x is False:
            continue
        elif isinstance(x, z3.BoolRef):
            es.append(x)
        elif x:
            return True
    if not es:
        return False
    if len(es) == 1:
        return SymBool([es[0]])
    return SymBool([z3.Or(es)])


def bimplies(a, b):
    return bor(bnot(a), b)


def biff(a, b):
    if isinstance(a, bool) and type(a) is bool:
        if type(b) is bool:
            return a == b
        return b if a else bnot(b)
    if type(b) is bool:
        return a if b else bnot(a)
    if type(a) is not SymBool or type(b) is not SymBool:
        return NotImplemented if type(a) is SymBool else a == b
    return SymBool.of(bexpr(a) == bexpr(b))


def bite(c, a, b):
    return bor(band(c, a), band(bnot(c), b))
