"""
`re` for symbolic strings: the pattern is parsed by CPython's own regex parser
and matched by a backtracking matcher that asks the solver about every symbolic
character class test.  Concrete subjects go to the real `re`.
"""
import re as _re
from re import _parser, _constants as C

from . import core
from .core import Unsupported, SymBool, bnot
from .sym import (SymStr, mk, items_of, char_eq, char_pred, char_in_set)

error = _re.error
_META = "".join(chr(c) for c in _re._special_chars_map)
for _n in ("A", "ASCII", "I", "IGNORECASE", "L", "LOCALE", "M", "MULTILINE", "S",
           "DOTALL", "X", "VERBOSE", "U", "UNICODE", "DEBUG", "NOFLAG", "RegexFlag",
           "Pattern", "Match", "purge", "T", "TEMPLATE"):
    if hasattr(_re, _n):
        globals()[_n] = getattr(_re, _n)

_RealPattern = type(_re.compile(""))
_BIG = C.MAXREPEAT


def _leaf_fn(op, av, flags):
    """Predicate of one concrete character for a leaf of the parse tree."""
    p = _parser.SubPattern(_parser.State(), [(op, av)])
    p.state.flags = flags
    p.state.str = ""
    code = _compile_leaf(p, flags)
    return lambda c: code.match(c) is not None


def _compile_leaf(p, flags):
    from re import _compiler
    import _sre
    code = _compiler._code(p, flags)
    return _sre.compile("leaf", flags, code, 0, {}, (None,))


class _Node:
    __slots__ = ()


_nodes_cache = {}


class SymPattern:
    def __init__(self, pattern, flags=0):
        self.ph = None
        self.pattern = pattern
        if type(pattern) is SymStr:
            pattern = self._placeholders(pattern)
        self._src = pattern
        self._re = _re.compile(pattern, flags)
        self.flags = self._re.flags
        self.groups = self._re.groups
        self.groupindex = self._re.groupindex
        self._tree = None

    def _placeholders(self, pattern):
        """Symbolic pattern characters that can only be literals become placeholders."""
        u = core.ENGINE.u
        self.ph = {}
        out, esc = [], False
        for c in pattern.it:
            if type(c) is str:
                out.append(c)
                esc = c == "\\" and not esc
                continue
            img = u.codes(c.dom_image())
            if esc:
                ok = not any(chr(x).isalnum() for x in img)
                out.pop()
            else:
                ok = not any(chr(x) in _META for x in img)
            if not ok:
                core.ENGINE.abort(Unsupported("symbolic regular expression"))
            code = 0xF0000 + len(self.ph)
            self.ph[code] = c
            out.append(chr(code))
            esc = False
        return "".join(out)

    def __repr__(self):
        return repr(self._re)

    def __eq__(self, o):
        return type(o) is SymPattern and self._re == o._re

    def __hash__(self):
        return hash(self._re)

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self

    def __reduce__(self):
        return (compile, (self.pattern, self.flags & ~int(_re.UNICODE)))

    def _compile(self):
        if self._tree is None:
            t = _parser.parse(self._src, self.flags)
            self._tree = (list(t), t.state.flags)
        return self._tree

    # -- matching --------------------------------------------------------
    def _run(self, s, pos, endpos, mode, must_advance=None):
        it = s.it
        n = len(it)
        pos = 0 if pos is None else max(0, min(pos, n))
        endpos = n if endpos is None else max(0, min(endpos, n))
        tree, flags = self._compile()
        m = _Matcher(it, endpos, flags, self.ph)
        starts = range(pos, endpos + 1) if mode == "search" else (pos,)
        for st in starts:
            def final(i, groups, st=st):
                if mode == "fullmatch" and i != endpos:
                    return None
                if must_advance is not None and i == must_advance and st == must_advance:
                    return None
                return (i, groups)
            r = m.seq(tree, 0, st, {}, final)
            if r is not None:
                return SymMatch(self, s, st, r[0], r[1], pos, endpos)
        return None

    def _do(self, mode, s, pos, endpos):
        if self.ph and type(s) is not SymStr:
            s = SymStr(tuple(s))
        if type(s) is not SymStr:
            a = (s,) if pos is None else (s, pos)
            if endpos is not None:
                a = (s, pos or 0, endpos)
            return getattr(self._re, mode)(*a)
        return self._run(s, pos, endpos, mode)

    def match(self, string, pos=None, endpos=None):
        return self._do("match", string, pos, endpos)

    def fullmatch(self, string, pos=None, endpos=None):
        return self._do("fullmatch", string, pos, endpos)

    def search(self, string, pos=None, endpos=None):
        return self._do("search", string, pos, endpos)

    def finditer(self, string, pos=0, endpos=None):
        if self.ph and type(string) is not SymStr:
            string = SymStr(tuple(string))
        if type(string) is not SymStr:
            a = (string, pos) if endpos is None else (string, pos, endpos)
            for m in self._re.finditer(*a):
                yield m
            return
        n = len(string) if endpos is None else min(endpos, len(string))
        must = None
        while pos <= n:
            m = self._run(string, pos, n, "search", must)
            if m is None:
                return
            yield m
            pos = m.end()
            must = pos if m.end() == m.start() or True else None

    def findall(self, string, pos=0, endpos=None):
        out = []
        for m in self.finditer(string, pos, endpos):
            g = m.groups("")
            out.append(m.group() if not g else g[0] if len(g) == 1 else g)
        return out

    def split(self, string, maxsplit=0):
        if self.ph and type(string) is not SymStr:
            string = SymStr(tuple(string))
        if type(string) is not SymStr:
            return self._re.split(string, maxsplit)
        out, last = [], 0
        for m in self.finditer(string):
            out.append(string[last:m.start()])
            out.extend(m.groups())
            last = m.end()
            if maxsplit and len(out) >= maxsplit:
                break
        out.append(string[last:])
        return out

    def subn(self, repl, string, count=0):
        if self.ph is None and type(string) is not SymStr and type(repl) is not SymStr:
            if callable(repl):
                sym = []

                def f(m):
                    r = repl(m)
                    if type(r) is SymStr:
                        sym.append(r)
                        return ""
                    return r
                res = self._re.subn(f, string, count)
                if not sym:
                    return res
            else:
                return self._re.subn(repl, string, count)
        out, last, n = [], 0, 0
        it = items_of(string)
        string = SymStr(tuple(it))
        for m in self.finditer(string):
            out.extend(it[last:m.start()])
            if callable(repl):
                r = repl(m)
            elif type(repl) is str and "\\" in repl:
                r = _expand(repl, m)
            else:
                if type(repl) is SymStr and repl._contains("\\"):
                    core.ENGINE.abort(Unsupported("symbolic template"))
                r = repl
            out.extend(items_of(r))
            last = m.end()
            n += 1
            if count and n >= count:
                break
        out.extend(it[last:])
        return mk(out), n

    def sub(self, repl, string, count=0):
        return self.subn(repl, string, count)[0]


def _expand(template, m):
    parsed = _parser.parse_template(template, m.re._re)
    out = []
    # Python 3.12: [literal, group, literal, group, ... literal]
    for i, x in enumerate(parsed):
        if i % 2 == 0:
            out.extend(x)
        else:
            g = m.group(x)
            out.extend(items_of(g) if g is not None else ())
    return mk(out)


class _Matcher:
    def __init__(self, it, end, flags, ph=None):
        self.ph = ph
        self.it = it
        self.end = end
        self.flags = flags
        self.n = len(it)

    def leaf(self, op, av, item, flags):
        if self.ph:
            if op in (C.LITERAL, C.NOT_LITERAL) and av in self.ph:
                c = self.ph[av]
                if flags & _re.I:
                    c = c.apply("lower")
                    item = item.lower() if type(item) is str else item.apply("lower")
                r = char_eq(item, c)
                return r if op is C.LITERAL else bnot(r)
            if op is C.IN and any(o is C.LITERAL and v in self.ph for o, v in av):
                core.ENGINE.abort(Unsupported("symbolic character class"))
        key = ("re", op, _freeze(av), flags)
        fn = _nodes_cache.get(key)
        if fn is None:
            fn = _nodes_cache[key] = _leaf_fn(op, av, flags)
        return char_pred(item, key, fn)

    def word(self, i):
        if i < 0 or i >= self.n:
            return False
        f = self.flags & _re.ASCII
        key = ("re", "word", f)
        p = _re.compile(r"\w", f)
        return bool(char_pred(self.it[i], key, lambda c: p.match(c) is not None))

    def at(self, av, i, flags):
        if av in (C.AT_BEGINNING, C.AT_BEGINNING_STRING):
            if av is C.AT_BEGINNING and flags & _re.M:
                return i == 0 or bool(char_eq(self.it[i - 1], "\n"))
            return i == 0
        if av is C.AT_END_STRING:
            return i == self.end
        if av is C.AT_END:
            if i == self.end:
                return True
            if flags & _re.M:
                return bool(char_eq(self.it[i], "\n"))
            return i == self.end - 1 and bool(char_eq(self.it[i], "\n"))
        if av in (C.AT_BOUNDARY, C.AT_NON_BOUNDARY):
            a = self.word(i - 1)
            b = self.word(i) if i < self.end else False
            return (a != b) == (av is C.AT_BOUNDARY)
        core.ENGINE.abort(Unsupported("regex anchor %s" % av))

    def seq(self, nodes, k, i, g, cont, flags=None):
        if flags is None:
            flags = self.flags
        if k == len(nodes):
            return cont(i, g)
        op, av = nodes[k]

        def nxt(j, g2):
            return self.seq(nodes, k + 1, j, g2, cont, flags)
        return self.node(op, av, i, g, nxt, flags)

    def node(self, op, av, i, g, cont, flags):
        if op in (C.LITERAL, C.NOT_LITERAL, C.ANY, C.IN):
            if i >= self.end:
                return None
            if not self.leaf(op, av, self.it[i], flags):
                return None
            return cont(i + 1, g)
        if op is C.AT:
            return cont(i, g) if self.at(av, i, flags) else None
        if op is C.BRANCH:
            for alt in av[1]:
                r = self.seq(list(alt), 0, i, g, cont, flags)
                if r is not None:
                    return r
            return None
        if op is C.SUBPATTERN:
            group, add, dele, p = av
            fl = (flags | add) & ~dele

            def close(j, g2):
                if group is not None:
                    g2 = dict(g2)
                    g2[group] = (i, j)
                    g2["last"] = group
                return cont(j, g2)
            return self.seq(list(p), 0, i, g, close, fl)
        if op in (C.MAX_REPEAT, C.MIN_REPEAT):
            lo, hi, p = av
            p = list(p)
            greedy = op is C.MAX_REPEAT

            def rep(count, j, g2, last):
                def more():
                    if hi is not _BIG and count >= hi:
                        return None
                    return self.seq(p, 0, j, g2,
                                    lambda j2, g3: None if j2 == j and count >= lo
                                    else rep(count + 1, j2, g3, j), flags)
                if count < lo:
                    return more()
                if greedy:
                    r = more()
                    return r if r is not None else cont(j, g2)
                r = cont(j, g2)
                return r if r is not None else more()
            return rep(0, i, g, -1)
        if op is C.POSSESSIVE_REPEAT:
            lo, hi, p = av
            p = list(p)
            count = 0
            while hi is _BIG or count < hi:
                r = self.seq(p, 0, i, g, lambda j, g2: (j, g2), flags)
                if r is None or (r[0] == i and count >= lo):
                    break
                i, g = r
                count += 1
            return cont(i, g) if count >= lo else None
        if op is C.ATOMIC_GROUP:
            r = self.seq(list(av), 0, i, g, lambda j, g2: (j, g2), flags)
            return cont(*r) if r is not None else None
        if op is C.GROUPREF:
            sp = g.get(av)
            if sp is None:
                return None
            for k in range(sp[0], sp[1]):
                if i >= self.end or not SymBool.__bool__(_b(char_eq(self.it[k], self.it[i]))):
                    return None
                i += 1
            return cont(i, g)
        if op in (C.ASSERT, C.ASSERT_NOT):
            direction, p = av
            if direction < 0:
                lo, hi = p.getwidth()
                if lo != hi:
                    raise error("look-behind requires fixed-width pattern")
                j = i - lo
                r = None
                if j >= 0:
                    r = self.seq(list(p), 0, j, g,
                                 lambda e, g2: (e, g2) if e == i else None, flags)
            else:
                r = self.seq(list(p), 0, i, g, lambda e, g2: (e, g2), flags)
            if op is C.ASSERT:
                return cont(i, r[1]) if r is not None else None
            return cont(i, g) if r is None else None
        core.ENGINE.abort(Unsupported("regex operator %s" % op))


def _b(x):
    return x if type(x) is SymBool else SymBool([], neg=not x)


def _freeze(av):
    if isinstance(av, list):
        return tuple(_freeze(x) for x in av)
    if isinstance(av, tuple):
        return tuple(_freeze(x) for x in av)
    return av


class SymMatch:
    def __init__(self, pat, s, start, end, groups, pos, endpos):
        self.re = pat
        self.string = s
        self._s, self._e = start, end
        self._g = groups
        self.pos, self.endpos = pos, endpos
        self.lastindex = groups.get("last")
        self.regs = tuple(self.span(i) for i in range(pat.groups + 1))

    @property
    def lastgroup(self):
        for k, v in self.re.groupindex.items():
            if v == self.lastindex:
                return k
        return None

    def _idx(self, k):
        if isinstance(k, str):
            try:
                return self.re.groupindex[k]
            except KeyError:
                raise IndexError("no such group")
        if k < 0 or k > self.re.groups:
            raise IndexError("no such group")
        return k

    def span(self, k=0):
        k = self._idx(k)
        if k == 0:
            return (self._s, self._e)
        return self._g.get(k, (-1, -1))

    def start(self, k=0):
        return self.span(k)[0]

    def end(self, k=0):
        return self.span(k)[1]

    def _one(self, k, default=None):
        a, b = self.span(k)
        return default if a < 0 else self.string[a:b]

    def group(self, *ks):
        if not ks:
            ks = (0,)
        r = tuple(self._one(k) for k in ks)
        return r[0] if len(r) == 1 else r

    __getitem__ = group

    def groups(self, default=None):
        return tuple(self._one(k, default) for k in range(1, self.re.groups + 1))

    def groupdict(self, default=None):
        return {n: self._one(k, default) for n, k in self.re.groupindex.items()}

    def expand(self, template):
        return _expand(template, self)

    def __bool__(self):
        return True


_cache = {}


def compile(pattern, flags=0):
    if isinstance(pattern, SymPattern):
        return pattern
    if isinstance(pattern, _RealPattern):
        return compile(pattern.pattern, pattern.flags)
    if type(pattern) is SymStr:
        return SymPattern(pattern, flags)
    key = (type(pattern), pattern, int(flags))
    p = _cache.get(key)
    if p is None:
        p = SymPattern(pattern, flags)
        _cache[key] = p
    return p


def match(p, s, flags=0):
    return _lit(p, s, flags, "match")


def fullmatch(p, s, flags=0):
    return _lit(p, s, flags, "fullmatch")


def search(p, s, flags=0):
    return _lit(p, s, flags, "search")


def _lit(p, s, flags, mode):
    return getattr(compile(p, flags), mode)(s)


def sub(p, r, s, count=0, flags=0):
    return compile(p, flags).sub(r, s, count)


def subn(p, r, s, count=0, flags=0):
    return compile(p, flags).subn(r, s, count)


def split(p, s, maxsplit=0, flags=0):
    return compile(p, flags).split(s, maxsplit)


def findall(p, s, flags=0):
    return compile(p, flags).findall(s)


def finditer(p, s, flags=0):
    return compile(p, flags).finditer(s)


def escape(p):
    if type(p) is not SymStr:
        return _re.escape(p)
    out = []
    for c in p.it:
        if type(c) is str:
            out.extend(_re.escape(c))
        elif char_in_set(c, _META):
            out.extend(("\\", c))
        else:
            out.append(c)
    return mk(out)
