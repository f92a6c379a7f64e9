"""C04: objects take exactly the names that are documented as valid."""
import jsgf
from jsgf import GrammarError

SPECIAL = "+-:,=|/\\()[]@#%!^&~$"


def base_char(h, c, semicolon):
    return h.charpred(c, ("C04", semicolon),
                      lambda x: x.isalnum() or x == "_" or x in SPECIAL or
                      (semicolon and x == ";"))


def split_dots(s):
    parts, cur = [], []
    for i in range(len(s)):
        if s[i] == ".":
            parts.append(cur)
            cur = []
        else:
            cur.append(s[i])
    parts.append(cur)
    return parts


def base_ok(h, part, semicolon):
    return bool(part) and all(bool(base_char(h, c, semicolon)) for c in part)


def reserved(s):
    return bool(s == "NULL") or bool(s == "VOID")


def expected(h, kind, s):
    parts = split_dots(s)
    if kind == "rule":
        return len(parts) == 1 and base_ok(h, parts[0], True) and not reserved(s)
    if kind == "grammar":
        return all(base_ok(h, p, False) for p in parts) and not reserved(s)
    if kind == "ref":
        return all(base_ok(h, p, True) for p in parts)
    # import: at least two parts, the last one may be a wild card
    if len(parts) < 2:
        return False
    last = parts[-1]
    if len(last) == 1 and last[0] == "*":
        parts = parts[:-1]
    return all(base_ok(h, p, True) for p in parts)


def make(kind, s):
    if kind == "rule":
        return jsgf.Rule(s, True, "a")
    if kind == "grammar":
        return jsgf.Grammar(s)
    if kind == "ref":
        return jsgf.NamedRuleRef(s)
    return jsgf.Import(s)


GOOD = dict(rule="x", grammar="x", ref="x", imp="x.y")


def name(h, s):
    for i in range(len(s) - 1):     # comment markers are outside
        h.assume(h.not_(h.and_(s[i] == "/", h.isin(s[i + 1], "/*"))))
    kind = h.pick(("rule", "grammar", "ref", "imp"), "kind")
    want = expected(h, kind, s)
    try:
        x = make(kind, s)
        ok = True
        h.check(x.name == s, "object created with another name")
    except GrammarError:
        ok = False
    h.observe("ok", ok)
    h.check(ok == want, "wrong verdict on a name")
    x = make(kind, GOOD[kind])
    try:
        x.name = s
        ok = True
    except GrammarError:
        ok = False
    h.check(ok == want, "wrong verdict on renaming")
    h.check(x.name == (s if ok else GOOD[kind]), "name after renaming")
    h.reach("valid" if ok else "invalid")


def unicode_names(n):
    def fn(h):
        name(h, h.string("s", 0, n))
    return fn


def alphabet_names(n, chs):
    def fn(h):
        name(h, h.string("s", 0, n, chs))
    return fn


def import_parts(h):
    """The parts of an import's name."""
    a = h.string("a", 1, 2, "ab+")
    b = h.string("b", 1, 2, "ab+")
    c = h.pick((None, "*", "r"), "c")
    s = a + "." + b
    if c is not None:
        s = s + "." + c
    elif h.bool("w"):
        s = a + ".*"
    i = jsgf.Import(s)
    cut = [k for k in range(len(s)) if s[k] == "."][-1]
    h.check(i.grammar_name == s[:cut], "grammar name of an import")
    h.check(i.rule_name == s[cut + 1:], "rule name of an import")
    h.check(i.wildcard_import == (s[cut + 1:] == "*"), "wild card import")
    h.check(i.compile() == "import <" + s + ">;", "compiled import")
    h.reach("ok")


VR = ("valid", "invalid")
HARNESSES = [
    dict(name="unicode2", fn=unicode_names(2), universe="unicode", tiers=("quick",), reach=VR,
         bounds="rule, grammar, import and reference names of 0..2 characters out of all of Unicode"),
    dict(name="unicode4", fn=unicode_names(4), universe="unicode", tiers=("thorough",), reach=VR,
         bounds="rule, grammar, import and reference names of 0..4 characters out of all of Unicode"),
    dict(name="ascii4", fn=unicode_names(4), tiers=("quick",), reach=VR,
         bounds="names of 0..4 Latin-1 characters"),
    dict(name="reserved5", fn=alphabet_names(5, "NULVOIDa. *"), tiers=("quick",), reach=VR,
         bounds="names of 0..5 characters over 'NULVOIDa. *'"),
    dict(name="dots7", fn=alphabet_names(7, "a.*; "), tiers=("quick",), reach=VR,
         bounds="names of 0..7 characters over 'a.*; '"),
    dict(name="dots9", fn=alphabet_names(9, "a.*; "), tiers=("thorough",), reach=VR,
         bounds="names of 0..9 characters over 'a.*; '"),
    dict(name="importparts", fn=import_parts, reach=("ok",),
         bounds="imports g.r and g.h.r with names of 1..2 characters, with and without wild card"),
]
OUTSIDE = ["names that contain the comment markers // and /*"]
