"""C12: generated strings are sentences of the rule."""
import jsgf
from symex.alph import LOWER
from props.gen import Gen
from props.matchref import Lang, nodes


def word(g, name):
    return g.h.string(name, 1, 1, LOWER)


def positive(e, n):
    return e.weights[e.children[n]] > 0 if e.weights else True


def sentence(h, rule, matches=False):
    s = rule.generate()
    h.observe("sentence", s)
    words = s.split()
    void = any(isinstance(x, jsgf.VoidRef) for x in nodes(rule.expansion))
    h.check(Lang(h, words, positive).member(rule.expansion), "a generated string is not a sentence of the rule",
            sig="void" if void else None)
    if matches and words:
        h.check(rule.matches(s), "a generated string does not match the rule")
    h.reach("empty" if not words else "words")


def trees(budget, low, leaves=("lit",), inner=("seq", "alt", "opt", "rep", "star"), kids=3, empty=False,
          named=False, distinct=False, words2=False):
    def fn(h):
        h.random_min = low
        used = []

        def text(g, name):
            w = word(g, name)
            if words2 and h.bool(name + ".two"):
                w = w + h.pick((" ", "  "), name + ".sp") + h.string(name + "b", 1, 1, LOWER)
            if distinct:
                for x in used:
                    h.assume(w != x)
                used.append(w)
            return w
        grammar = jsgf.Grammar("g")

        def ref(g, name):
            sub = g.tree() if g.left > 0 else jsgf.Literal(text(g, name))
            r = jsgf.PrivateRule("x" + name, sub)
            if not named:
                return jsgf.RuleRef(r)
            grammar.add_rule(r)
            return jsgf.NamedRuleRef("x" + name)
        g = Gen(h, budget, leaves=leaves, inner=inner, kids=kids, empty=empty, text=text, ref=ref)
        rule = jsgf.PublicRule("r", g.tree())
        if named:
            grammar.add_rule(rule)
        sentence(h, rule, distinct)
    return fn


def weights(budget, symbolic):
    def fn(h):
        h.random_grid = 1009
        used = []

        def text(g, name):
            w = word(g, name)
            for x in used:
                h.assume(w != x)
            used.append(w)
            return w
        g = Gen(h, budget, inner=("seq", "alt", "opt", "rep"), text=text)
        e = g.tree()
        if any(isinstance(x, jsgf.Repeat) for x in nodes(e)):
            h.random_min = 0.26
        some = False
        for i, a in enumerate(g.alts):
            if len(a.children) > 1 and h.bool("w%d" % i):
                some = True
                total = 0
                for j in range(len(a.children)):
                    w = h.decimal("w%d.%d" % (i, j), 1, 1) if symbolic else \
                        h.pick((0, 1, 0.1, 0.7), "w%d.%d" % (i, j))
                    total = total + w
                    a.set_weight(j, w)
                h.assume(total > 0)
        if not some:
            return
        if h.bool("copy"):
            e = e.copy()
        sentence(h, jsgf.PublicRule("r", e), True)
    return fn


def disabled(h):
    h.random_min = 0.25
    g = Gen(h, 3, text=word)
    rule = h.pick((jsgf.PublicRule, jsgf.PrivateRule), "cls")("r", g.tree())
    rule.disable()
    h.check(rule.generate() == "", "a disabled rule generates something")
    rule.enable()
    sentence(h, rule)


R = ("empty", "words")
Q, T, B = ("quick",), ("thorough",), ("quick", "thorough")
HARNESSES = [
    dict(name="trees3", fn=trees(3, 0.125), tiers=Q, reach=R,
         bounds="every tree of at most 3 nodes (literals of one symbolic letter, sequences, alternatives, "
                "optionals, repeats, stars); every outcome of the random choices with up to 4 repetitions"),
    dict(name="trees4", fn=trees(4, 0.26), tiers=Q, reach=R,
         bounds="as trees3 with at most 4 nodes and up to 2 repetitions"),
    dict(name="wide", fn=trees("wide", 0.26, distinct=True), tiers=B, reach=R, bounds="sequences, groups and sets of 4 or 6 children, any one of them within another expansion, up to 2 repetitions"),
    dict(name="deep", fn=trees("deep3", 0.26, distinct=True), tiers=Q, reach=R, bounds="three expansions within each other, of two kinds in turn, up to 2 repetitions"),
    dict(name="deep4", fn=trees("deep4", 0.26, distinct=True), tiers=T, reach=R, bounds="four expansions within each other, of two kinds in turn, up to 2 repetitions"),
    dict(name="trees4r", fn=trees(4, 0.125), tiers=T, reach=R, bounds="as trees3 with at most 4 nodes"),
    dict(name="trees5", fn=trees(5, 0.26), tiers=T, reach=R, bounds="as trees4 with at most 5 nodes"),
    dict(name="special3", fn=trees(3, 0.25, leaves=("lit", "null", "void", "ref"), empty=True,
                                   inner=("seq", "group", "alt", "opt", "rep", "star")), tiers=Q, reach=R,
         bounds="every tree of at most 3 nodes, also with <NULL>, <VOID>, references, groups and childless expansions; "
                "up to 3 repetitions"),
    dict(name="special4", fn=trees(4, 0.25, leaves=("lit", "null", "void", "ref"), empty=True,
                                   inner=("seq", "group", "alt", "opt", "rep", "star")), tiers=T, reach=R,
         bounds="as special3 with 4 nodes"),
    dict(name="named3", fn=trees(3, 0.26, leaves=("lit", "ref"), inner=("seq", "alt", "opt", "rep"), named=True),
         tiers=Q, reach=R, bounds="every tree of at most 3 nodes with references by name; up to 2 repetitions"),
    dict(name="match4", fn=trees(4, 0.26, distinct=True), tiers=Q, reach=R,
         bounds="trees of at most 4 nodes without equal words: what is generated also matches; up to 2 repetitions"),
    dict(name="named4", fn=trees(4, 0.25, leaves=("lit", "ref"), inner=("seq", "alt", "opt", "rep"), named=True),
         tiers=T, reach=R, bounds="every tree of at most 4 nodes with references by name; up to 3 repetitions"),
    dict(name="match4r", fn=trees(4, 0.25, distinct=True), tiers=T, reach=R,
         bounds="trees of at most 4 nodes without equal words: what is generated also matches; up to 3 repetitions"),
    dict(name="words3", fn=trees(3, 0.25, words2=True), tiers=B, reach=R,
         bounds="trees of at most 3 nodes with literals of 1..2 words and 1..2 spaces"),
    dict(name="weights4", fn=weights(4, False), tiers=B, reach=("words",),
         bounds="trees of at most 4 nodes with alternatives of weights 0, 0.1, 0.7 or 1; random numbers k/1009"),
    dict(name="symweights4", fn=weights(4, True), tiers=B, reach=("words",),
         bounds="trees of at most 4 nodes with alternatives of symbolic weights d.d, random numbers k/1009"),
    dict(name="disabled", fn=disabled, tiers=B, reach=R, bounds="disabled and enabled rules of at most 3 nodes"),
]
OUTSIDE = ["sets of which all weights are 0", "more repetitions", "how likely each sentence is"]
