"""
Reference model of JSGF expansions (section 4 of the JSGF specification as the
module documentation of jsgf.parser restates it).

Normal form of an expansion: (kind, payload, tags)
  ("lit", text, tags) ("ref", name, tags) ("null", None, tags) ("void", None, tags)
  ("seq", [nf...], tags) ("alt", [(weight|None, nf)...], tags)
  ("opt", nf, tags) ("rep", nf, tags) ("star", nf, tags)
Grouping parentheses are transparent; untagged nested sequences, and untagged
unweighted nested alternatives, are flattened; adjacent untagged literals of a
sequence are one literal; a childless sequence or set is <NULL>.
"""
import jsgf
from jsgf import parser as jparser

WORDX = "-'"


def nf_seq(xs, tags=()):
    out = []
    for x in xs:
        for y in (x[1] if x[0] == "seq" and not x[2] else [x]):
            if y[0] == "lit" and not y[2] and out and out[-1][0] == "lit" \
                    and not out[-1][2]:
                out[-1] = ("lit", out[-1][1] + " " + y[1], ())
            else:
                out.append(y)
    if not out:
        return ("null", None, tuple(tags))
    if len(out) == 1:
        return (out[0][0], out[0][1], tuple(out[0][2]) + tuple(tags))
    return ("seq", out, tuple(tags))


def nf_alt(xs, tags=()):
    """xs: list of (weight | None, nf)."""
    out = []
    weighted = any(w is not None for w, _ in xs)
    for w, x in xs:
        if x[0] == "alt" and not x[2] and not weighted and \
                not any(v is not None for v, _ in x[1]):
            out.extend(x[1])
        else:
            out.append((w, x))
    if not out:
        return ("null", None, tuple(tags))
    if len(out) == 1 and out[0][0] is None:
        x = out[0][1]
        return (x[0], x[1], tuple(x[2]) + tuple(tags))
    return ("alt", out, tuple(tags))


def add_tags(x, tags):
    return (x[0], x[1], tuple(x[2]) + tuple(tags))


def nf_of(e):
    """Normal form of a library expansion."""
    t = type(e)
    tags = (e.tag,) if e.tag else ()
    if isinstance(e, jsgf.NullRef):
        return ("null", None, tags)
    if isinstance(e, jsgf.VoidRef):
        return ("void", None, tags)
    if isinstance(e, jsgf.NamedRuleRef):
        return ("ref", e.name, tags)
    if isinstance(e, jsgf.Literal):
        return ("lit", e.text, tags)
    if isinstance(e, jsgf.KleeneStar):
        return ("star", nf_of(e.child), tags)
    if isinstance(e, jsgf.Repeat):
        return ("rep", nf_of(e.child), tags)
    if isinstance(e, jsgf.OptionalGrouping):
        return ("opt", nf_of(e.child), tags)
    if isinstance(e, jsgf.AlternativeSet):
        return nf_alt([(weight_of(e, c), nf_of(c)) for c in e.children], tags)
    if isinstance(e, jsgf.Sequence):
        return nf_seq([nf_of(c) for c in e.children], tags)
    return ("?" + t.__name__, None, tags)


def weight_of(alt, child):
    """The weight that the API reports for this child (None if there is none)."""
    for k, v in alt.weights.items():
        if k is child:
            return v
    return alt.weights.get(child)


def nf_eq(h, a, b):
    """Equality of normal forms as a condition (may be symbolic)."""
    if a[0] != b[0]:
        return False
    if len(a[2]) != len(b[2]):
        return False
    conds = [x == y for x, y in zip(a[2], b[2])]
    k = a[0]
    if k in ("lit", "ref"):
        conds.append(a[1] == b[1])
    elif k in ("null", "void"):
        pass
    elif k in ("opt", "rep", "star"):
        conds.append(nf_eq(h, a[1], b[1]))
    elif k == "seq":
        if len(a[1]) != len(b[1]):
            return False
        conds.extend([nf_eq(h, x, y) for x, y in zip(a[1], b[1])])
    elif k == "alt":
        if len(a[1]) != len(b[1]):
            return False
        for (w, x), (v, y) in zip(a[1], b[1]):
            if (w is None) != (v is None):
                return False
            if w is not None:
                conds.append(w == v)
            conds.append(nf_eq(h, x, y))
    else:
        return False
    return h.and_(*conds)


def show(x):
    """Rendering of a normal form for observations."""
    k = x[0]
    if k in ("lit", "ref"):
        p = x[1]
    elif k in ("opt", "rep", "star"):
        p = show(x[1])
    elif k == "seq":
        p = [show(y) for y in x[1]]
    elif k == "alt":
        p = [[w, show(y)] for w, y in x[1]]
    else:
        p = None
    return [k, p, list(x[2])]


# --------------------------------------------------------------------------
# Reference parser (recursive descent, precedence as documented)
# --------------------------------------------------------------------------
class Reject(Exception):
    """Not a JSGF expansion."""


class Outside(Exception):
    """Not covered by the reference (number formats, comments, ...)."""


def is_word_char(h, c):
    return h.charpred(c, ("ref", "wordchar"),
                      lambda x: x.isalnum() or x == "_" or x in WORDX)


def is_space(h, c):
    return h.charpred(c, ("ref", "space"), lambda x: x in " \t\n\r")


def is_name_char(h, c):
    return h.charpred(c, ("ref", "namechar"),
                      lambda x: x.isalnum() or x == "_" or x in "+-;:|/\\()[]@#%!^&~$")


def is_tag_char(h, c):
    return h.charpred(c, ("ref", "tagchar"),
                      lambda x: x.isalnum() or x == "_" or x in "-'")


class RefParser:
    def __init__(self, h, s):
        self.h = h
        self.s = s
        self.i = 0

    def at(self, i, ch):
        return i < len(self.s) and bool(self.s[i] == ch)

    def ws(self):
        """Skip white space and C++ style comments."""
        s = self.s
        while True:
            while self.i < len(s) and is_space(self.h, s[self.i]):
                self.i += 1
            if not self.at(self.i, "/"):
                return
            j = self.i + 1
            if self.at(j, "/"):
                j += 1
                while j < len(s) and not s[j] == "\n":
                    if s[j] == "\\" and self.at(j + 1, "\n"):
                        j += 1
                    j += 1
                self.i = j
            elif self.at(j, "*"):
                j += 1
                while j < len(s) and not (s[j] == "*" and self.at(j + 1, "/")):
                    j += 1
                if j >= len(s):
                    return      # not terminated: not a comment
                self.i = j + 2
            else:
                return

    def peek(self, ch):
        self.ws()
        return self.i < len(self.s) and bool(self.s[self.i] == ch)

    def take(self, ch):
        if self.peek(ch):
            self.i += 1
            return True
        return False

    def expect(self, ch):
        if not self.take(ch):
            raise Reject(ch)

    def parse(self):
        x = self.exp(top=True)
        self.ws()
        if self.i != len(self.s):
            raise Reject("trailing input")
        return x

    def exp(self, top=False):
        alts = [self.alternative()]
        while self.take("|"):
            alts.append(self.alternative())
        if len(alts) == 1:
            if alts[0][0] is not None:
                raise Reject("weight outside of alternatives")
            return alts[0][1]
        return nf_alt(alts)

    def alternative(self):
        w = None
        if self.take("/"):
            w = self.number()
            self.expect("/")
        xs = [self.unary()]
        while self.at_atom():
            xs.append(self.unary())
        return (w, nf_seq(xs))

    def number(self):
        self.ws()
        j = self.i
        dots = 0
        while j < len(self.s):
            c = self.s[j]
            if self.h.isin(c, "0123456789"):
                j += 1
            elif c == ".":
                dots += 1
                j += 1
            elif self.h.isin(c, "+-eE:"):
                raise Outside("number format")
            elif self.h.charpred(c, ("ref", "uninum"),
                                 lambda x: x.isdigit() or x.isnumeric()):
                raise Outside("number format")
            else:
                break
        if j == self.i or dots > 1 or j - self.i == dots:
            raise Reject("number")
        text = self.s[self.i:j]
        self.i = j
        return float(text)

    def at_atom(self):
        self.ws()
        if self.i >= len(self.s):
            return False
        c = self.s[self.i]
        return bool(self.h.or_(self.h.isin(c, "<(["), is_word_char(self.h, c)))

    def atom(self):
        if not self.at_atom():
            raise Reject("atom")
        if self.take("("):
            x = self.exp()
            self.expect(")")
            return x
        if self.take("["):
            x = self.exp()
            self.expect("]")
            return ("opt", x, ())
        if self.take("<"):
            self.ws()
            j = self.i
            dot = True
            while j < len(self.s):
                if is_name_char(self.h, self.s[j]):
                    dot = False
                elif self.s[j] == ".":
                    if dot:
                        raise Reject("name")
                    dot = True
                    if self.at(j + 1, "/") and (self.at(j + 2, "/") or
                                                self.at(j + 2, "*")):
                        raise Outside("comment inside a name")
                else:
                    break
                j += 1
            if j == self.i or dot:
                raise Reject("name")
            name = self.s[self.i:j]
            self.i = j
            self.expect(">")
            if name == "NULL":
                return ("null", None, ())
            if name == "VOID":
                return ("void", None, ())
            return ("ref", name, ())
        ws = []
        while True:
            self.ws()
            j = self.i
            while j < len(self.s) and is_word_char(self.h, self.s[j]):
                j += 1
            if j == self.i:
                break
            ws.append(self.s[self.i:j])
            self.i = j
        return ("lit", " ".join(ws).lower(), ())

    def unary(self):
        x = self.atom()
        rep = False
        while True:
            if self.take("+"):
                if rep:
                    raise Outside("stacked repeat operators")
                x, rep = ("rep", x, ()), True
            elif self.take("*"):
                if rep:
                    raise Outside("stacked repeat operators")
                x, rep = ("star", x, ()), True
            elif self.take("{"):
                if rep:
                    raise Reject("tag on a repeat without parentheses")
                x = add_tags(x, (self.tag(),))
            else:
                return x

    def tag(self):
        ws = []
        while True:
            self.ws()
            out = []
            while self.i < len(self.s):
                c = self.s[self.i]
                if is_tag_char(self.h, c):
                    out.append(c)
                    self.i += 1
                elif c == "\\":
                    if self.i + 1 < len(self.s) and \
                            self.h.isin(self.s[self.i + 1], "{}\\"):
                        out.append(self.s[self.i + 1])
                        self.i += 2
                    else:
                        out.append("\\")
                        self.i += 1
                else:
                    break
            if not out:
                break
            ws.append("".join(out))
        self.expect("}")
        if not ws:
            raise Reject("empty tag")
        return " ".join(ws)


def ref_parse(h, s):
    return RefParser(h, s).parse()
