"""C14: equality and hashing of expansions, rules and grammars."""
import itertools
import jsgf
from jsgf.ext import Dictation, SequenceRule, PublicSequenceRule
from symex.alph import LOWER
from props.gen import Gen, clone, clone_rule
from props.matchref import nodes

UP = "abcdABCD"


def eq(h, a, b):
    """Reference equality of two expansions (a condition)."""
    if type(a) is not type(b):
        return False
    if isinstance(a, (jsgf.NullRef, jsgf.VoidRef, Dictation)):
        return True
    if isinstance(a, jsgf.RuleRef):
        return h.and_(a.name == b.name, rule_eq(h, a.referenced_rule, b.referenced_rule))
    if isinstance(a, jsgf.NamedRuleRef):
        return a.name == b.name
    if isinstance(a, jsgf.Literal):
        return h.and_(a.text == b.text, a.case_sensitive == b.case_sensitive)
    xs, ys = list(a.children), list(b.children)
    if len(xs) != len(ys):
        return False
    if isinstance(a, jsgf.AlternativeSet):
        wa, wb = a.weights, b.weights
        pairs = [[eq(h, x, y) for y in ys] for x in xs]
        if wa or wb:
            pairs = [[False if c is False else h.and_(c, bool(wa) == bool(wb) and wa.get(x) == wb.get(y))
                      for c, y in zip(row, ys)] for row, x in zip(pairs, xs)]
        some = False
        for order in itertools.permutations(range(len(ys))):
            row = [pairs[i][j] for i, j in enumerate(order)]
            if all(c is not False for c in row):
                some = h.or_(some, h.and_(*row))
        return some
    ok = True
    for x, y in zip(xs, ys):
        ok = h.and_(ok, eq(h, x, y))
    return ok


def rule_eq(h, r, s, x=None, y=None):
    e, f = x or r.expansion, y or s.expansion
    return h.and_(h.and_(r.name == s.name, r.visible == s.visible),
                  h.and_(r.case_sensitive == s.case_sensitive, eq(h, e, f)))


def compare(h, a, b, want, msg, hashed=True, sig=None, hash_sig=None):
    got = a == b
    h.observe("equal", got)
    h.check(h.iff(got, want), "%s: == is not equality of their contents" % msg, sig=sig)
    h.check(h.iff(b == a, got), "%s: == is not symmetric" % msg, sig=sig)
    h.check(h.iff(a != b, h.not_(got)), "%s: != is not the negation of ==" % msg)
    h.check(a == a and not (a != a), "%s: an object does not equal itself" % msg)
    if hashed and got:
        h.check(hash(a) == hash(b), "%s: equal objects have different hashes" % msg, sig=hash_sig)
    h.reach("equal" if got else "different")


def build(h, name, budget, leaves, inner, weights=False, upper=False, named=True):
    def ref(g, n):
        r = jsgf.PrivateRule("x", jsgf.Literal(h.string(n + ".x", 1, 1, LOWER)))
        if h.bool(n + ".other"):
            r = jsgf.PrivateRule("y", r.expansion)
        if named and h.bool(n + ".named"):
            return jsgf.NamedRuleRef(r.name)
        return jsgf.RuleRef(r)

    class G(Gen):
        def tree(self):
            self.n = self.n or base
            return Gen.tree(self)
    base = 100 if name == "b" else 0
    g = G(h, budget, leaves=leaves, inner=inner, ref=ref, empty=True,
          text=lambda g, n: h.string(n, 1, 1, UP if upper else LOWER))
    e = g.tree()
    if upper:
        for x in nodes(e, refs=False):
            if isinstance(x, jsgf.Literal) and h.bool("cs"):
                x.case_sensitive = True
    if weights:
        for a in g.alts:
            ks = a.children
            if len(ks) and h.bool("weighted"):
                for i in range(len(ks)):
                    for j in range(i):
                        h.assume(h.not_(eq(h, ks[i], ks[j])))
                for i in range(len(ks)):
                    a.set_weight(i, h.decimal("w%s%d" % (name, i), 1, 1))
    return e


def pair(na, nb, leaves, inner, weights=False, upper=False):
    def fn(h):
        a = build(h, "a", na, leaves, inner, weights, upper)
        b = build(h, "b", nb, leaves, inner, weights, upper)
        compare(h, a, b, eq(h, a, b), "expansions")
    return fn


def multiset(n, inner):
    """Sets of alternatives that have some alternatives more than once."""
    def fn(h):
        def make(name):
            kids = []
            for i in range(n):
                x = jsgf.Literal(h.string("%s%d" % (name, i), 1, 1, "abc"))
                if inner and h.bool("%s%d.opt" % (name, i)):
                    x = jsgf.OptionalGrouping(x)
                kids.append(x)
            return jsgf.AlternativeSet(*kids)
        a, b = make("a"), make("b")
        compare(h, a, b, eq(h, a, b), "sets of alternatives")
    return fn


def other_kinds(h):
    """Comparisons with objects of other kinds."""
    e = build(h, "a", 2, ("lit", "ref", "null"), ("seq", "alt", "opt"))
    r = jsgf.PublicRule("r", e)
    g = jsgf.Grammar("g")
    g.add_rule(r)
    i = jsgf.Import("a.b")
    xs = (e, r, g, i)
    ys = xs + (None, 1, "a", e.children, e.compile(), r.name, object())
    for x in xs:
        for y in ys:
            if x is not y and not (x is e and y is e.children):
                h.check(not (x == y) and x != y, "objects of different kinds are equal")
    h.reach("compared")


def same(budget, leaves, inner):
    """A tree equals another one built the same way, and one with reordered alternatives."""
    def fn(h):
        a = build(h, "a", budget, leaves, inner, named=False)
        b = clone(a)
        k = 0
        sets = [x for x in nodes(b, refs=False) if isinstance(x, jsgf.AlternativeSet) and len(x.children) > 1]
        deep = 0
        if sets:
            x = h.pick(sets, "set")
            k = 1 + h.choose(len(x.children) - 1, "rotate")
            kids = list(x.children)
            x.children = kids[k:] + kids[:k]
            # The hash of a set uses the compiled text of its alternatives.
            while x.parent:
                x = x.parent
                deep += isinstance(x, jsgf.AlternativeSet)
        compare(h, a, b, True, "reordered alternatives in alternatives" if deep else "equal trees",
                sig="nested-alternatives" if deep > 1 else None,
                hash_sig="nested-alternatives" if deep else None)
    return fn


def changed(budget, leaves, inner):
    """A tree differs from a copy in which one thing was changed."""
    def fn(h):
        a = build(h, "a", budget, leaves, inner, upper=True, named=False)
        b = clone(a)
        compare(h, a, b, True, "equal trees")
        x = h.pick(list(nodes(b, refs=False)), "at")
        up = x.parent
        while up is not None:  # alternatives can be repeated in a set
            if isinstance(up, jsgf.AlternativeSet):
                return
            up = up.parent
        if isinstance(x, jsgf.Literal):
            if h.bool("case"):
                x.case_sensitive = not x.case_sensitive
            else:
                x.text = x.text + "z"
        elif x.children:
            k = h.choose(2, "how")
            if k == 0 and len(x.children) > 1 and not isinstance(x, jsgf.AlternativeSet):
                h.assume(h.not_(eq(h, x.children[0], x.children[1])))
                x.children = [x.children[1], x.children[0]] + list(x.children[2:])
            elif isinstance(x, (jsgf.Sequence, jsgf.AlternativeSet)):
                x.children.append("zz")
            else:
                return
        else:
            return
        compare(h, a, b, False, "different trees")
    return fn


def tags(h):
    """Tags do not matter for equality."""
    a = build(h, "a", 3, ("lit", "ref"), ("seq", "alt", "opt"), named=False)
    b = clone(a)
    x = h.pick(list(nodes(b, refs=False)), "at")
    x.tag = h.string("tag", 1, 1, LOWER)
    sets = 0
    up = x.parent
    while up is not None:
        sets += isinstance(up, jsgf.AlternativeSet)
        up = up.parent
    compare(h, a, b, True, "trees with other tags", sig="tag-hash" if sets else None,
            hash_sig="tag-hash" if sets or not isinstance(x, (jsgf.Literal, jsgf.NamedRuleRef)) else None)


def dictation(h):
    """Dictation equals dictation wherever it is."""
    def make(n):
        d, w = Dictation(), jsgf.Literal(h.string(n + ".w", 1, 1, LOWER))
        kids = [d, w] if h.bool(n + ".first") else [w, d]
        e = h.pick((jsgf.Sequence, jsgf.AlternativeSet), n + ".cls")(*kids)
        if h.bool(n + ".in"):
            jsgf.Sequence("z", jsgf.OptionalGrouping(e))
        return e, d
    (a, x), (b, y) = make("a"), make("b")
    compare(h, a, b, eq(h, a, b), "expansions with dictation")
    compare(h, x, y, True, "dictation")


def rules(h):
    def make(n):
        e = build(h, n, 2, ("lit",), ("seq", "alt"))
        name = h.string(n + ".name", 1, 1, "rst")
        vis, cs = h.bool(n + ".vis"), h.bool(n + ".cs")
        if h.bool(n + ".cls"):
            return (jsgf.PublicRule if vis else jsgf.PrivateRule)(name, e, case_sensitive=cs)
        return jsgf.Rule(name, vis, e, cs)
    a, b = make("a"), make("b")
    compare(h, a, b, rule_eq(h, a, b), "rules")
    if a == b:
        h.check(len(set([a, b])) == 1, "a set has two equal rules")


def sequence_rules(h):
    def make(n):
        parts = []
        for i in range(1 + h.choose(3, n + ".len")):
            parts.append(jsgf.Literal(h.string("%s%d" % (n, i), 1, 1, LOWER)) if h.bool("lit%s%d" % (n, i))
                         else Dictation())
        e = jsgf.Sequence(*parts)
        cls = h.pick((SequenceRule, PublicSequenceRule, jsgf.Rule), n + ".cls")
        if cls is PublicSequenceRule:
            r = cls("r", e)
        else:
            r = cls("r", True, e)
        orig = clone(e)
        if not isinstance(r, jsgf.ext.SequenceRule):
            return r, orig
        for i in range(h.choose(3, n + ".next")):
            if r.has_next_expansion:
                r.set_next()
        return r, orig
    (a, x), (b, y) = make("a"), make("b")
    compare(h, a, b, eq(h, x, y), "sequence rules", hashed=True)


def grammars(h):
    def make(n):
        g = jsgf.Grammar(h.string(n + ".name", 1, 1, "gh"), case_sensitive=h.bool(n + ".cs"))
        if h.bool(n + ".header"):
            g.charset_name = h.string(n + ".charset", 0, 1, "uv")
            g.language_name = h.string(n + ".language", 0, 1, "uv")
        k = h.choose(3, n + ".rules")
        for i in range(k):
            g.add_rule(jsgf.Rule("rs"[i], True, jsgf.Literal(h.string("%s%d" % (n, i), 1, 1, LOWER))))
        for i in range(h.choose(2, n + ".imports")):
            g.add_import(jsgf.Import("a." + h.string("%s.i%d" % (n, i), 1, 1, "xy")))
        return g
    a, b = make("a"), make("b")
    # The header is compared as it is compiled.
    want = h.and_(h.and_(a.name == b.name, a.case_sensitive == b.case_sensitive),
                  a.jsgf_header == b.jsgf_header)
    if len(a.rules) != len(b.rules) or len(a.imports) != len(b.imports):
        want = False
    else:
        for r, s in zip(a.rules, b.rules):
            want = h.and_(want, rule_eq(h, r, s))
        for i, j in zip(a.imports, b.imports):
            want = h.and_(want, i.name == j.name)
    compare(h, a, b, want, "grammars", hashed=False)
    i, j = jsgf.Import("a." + a.name), jsgf.Import("a." + b.name)
    compare(h, i, j, a.name == b.name, "imports")


E = ("equal", "different")
Q, T, B = ("quick",), ("thorough",), ("quick", "thorough")
ALL = ("lit", "ref", "null", "void"), ("seq", "group", "alt", "opt", "rep", "star")
HARNESSES = [
    dict(name="pair2", fn=pair(2, 2, *ALL), tiers=B, reach=E,
         bounds="two trees of at most 2 nodes each, every kind (literals of one symbolic letter, references by name or "
                "object, childless sequences and sets)"),
    dict(name="pair3", fn=pair(3, 3, ("lit",), ("seq", "alt", "opt")), tiers=B, reach=E,
         bounds="two trees of at most 3 nodes each: literals, sequences, sets, optionals"),
    dict(name="wide", fn=same("wide", ("lit",), ("seq", "group", "alt", "opt", "rep", "star")), tiers=B, reach=("equal",), bounds="sequences, groups and sets of 4 or 6 children, any one of them within another expansion"),
    dict(name="deep", fn=same("deep", ("lit",), ("seq", "group", "alt", "opt", "rep", "star")), tiers=B, reach=("equal",), bounds="five expansions within each other, of two kinds in turn"),
    dict(name="case", fn=pair(2, 2, ("lit",), ("seq", "alt"), upper=True), tiers=B, reach=E,
         bounds="as pair2 with literals, sequences and sets; symbolic letters of either case, any case sensitivity"),
    dict(name="weights", fn=pair(3, 3, ("lit",), ("alt",), weights=True), tiers=B, reach=E,
         bounds="two sets of at most 2 alternatives with symbolic weights d.d or none"),
    dict(name="multiset3", fn=multiset(3, False), tiers=B, reach=E, bounds="two sets of 3 words out of 3"),
    dict(name="multiset3-opt", fn=multiset(3, True), tiers=T, reach=E, bounds="two sets of 3 words out of 3, each optional or not"),
    dict(name="multiset4", fn=multiset(4, False), tiers=T, reach=E, bounds="two sets of 4 words out of 3"),
    dict(name="pair4", fn=pair(4, 4, ("lit",), ("seq", "alt", "opt")), tiers=T, reach=E, bounds="as pair3 with 4 nodes"),
    dict(name="same4", fn=same(4, ("lit", "ref"), ("seq", "alt", "opt")), tiers=B, reach=("equal",),
         bounds="trees of at most 4 nodes (literals, references by object, sequences, sets, optionals) and the same tree with the "
                "alternatives of one set rotated"),
    dict(name="changed", fn=changed(3, ("lit",), ("seq", "alt", "opt", "rep")), tiers=B, reach=E,
         bounds="trees of at most 3 nodes and the same tree with one changed text, case sensitivity, order or number of children"),
    dict(name="tags", fn=tags, tiers=B, reach=("equal",), bounds="trees of at most 3 nodes and the same tree with one symbolic tag"),
    dict(name="dictation", fn=dictation, tiers=B, reach=E,
         bounds="two sequences or sets of a dictation and a symbolic word in either order, alone or inside other expansions"),
    dict(name="rules", fn=rules, tiers=B, reach=E,
         bounds="two rules: symbolic one-letter names, visibility, case sensitivity, classes, expansions of at most 2 nodes"),
    dict(name="sequence", fn=sequence_rules, tiers=B, reach=E,
         bounds="two rules or sequence rules of up to 3 words and dictations, at any position of their sequences"),
    dict(name="grammars", fn=grammars, tiers=B, reach=E,
         bounds="two grammars and imports: symbolic names and header fields, up to 2 rules and 1 import"),
    dict(name="kinds", fn=other_kinds, tiers=B, reach=("compared",), bounds="an expansion, rule, grammar and import against other kinds of objects"),
]
OUTSIDE = ["weights left behind by removed alternatives, which are compared too",
           "hash collisions: hash functions are modelled as injective",
           "grammars of rules that reference each other in a cycle by object"]
