"""C23: dictation matches spoken words up to the next literal."""
import jsgf
from jsgf.ext import Dictation
from props.C21 import ExtGen, below
from props.matchref import Lang, check_data

LETTERS = "ab"


class DictLang(Lang):
    """allowed: the condition under which a word can be dictation."""

    def __init__(self, h, words, allowed=None):
        Lang.__init__(self, h, words)
        self.allowed = allowed

    def _ends(self, e, i):
        if not isinstance(e, Dictation):
            return Lang._ends(self, e, i)
        out, cond = {}, True
        for j in range(i, len(self.w)):
            if self.allowed is not None:
                cond = self.h.and_(cond, self.allowed(self.w[j]))
            out[j + 1] = cond
        return out


def optional_dictation(e, inside=False):
    if isinstance(e, Dictation):
        return inside
    inside = inside or isinstance(e, (jsgf.OptionalGrouping, jsgf.Repeat))
    return any(optional_dictation(c, inside) for c in below(e))


def trees(budget, nwords, inner, many=False, kids=3, leaves=("lit", "dict"), chars=2, letters=LETTERS, two=False, case=False):
    def fn(h):
        used, dicts = [], []
        cs = h.bool("case sensitive") if case else False

        def folded(w):
            return w if cs else w.lower()

        class Limited(ExtGen):
            def mk_dict(self, name):
                dicts.append(name)
                return Dictation()

        def word(name):
            t = h.string(name, 1, chars, letters)
            for u in used:
                h.assume(folded(t) != folded(u))
            used.append(t)
            return t

        def text(g, n):
            t = word(n)
            return t + " " + word(n + "b") if two and h.bool(n + ".two") else t

        def ref(g, name):
            x = jsgf.Literal(text(g, name + ".t"))
            if g.left > 0 and h.bool(name + ".opt"):
                x = jsgf.OptionalGrouping(x)
            return jsgf.RuleRef(jsgf.PrivateRule("x" + name, x))
        g = Limited(h, budget, leaves=leaves, inner=inner, kids=kids, text=text, ref=ref)
        e = g.tree()
        # Which dictation optional or repeated dictation matches is ambiguous.
        if not dicts or (len(dicts) > 1) != many or many and optional_dictation(e):
            return
        rule = jsgf.PublicRule("r", e, case_sensitive=cs)
        n = 1 + h.choose(nwords, "words")
        words = [h.string("w%d" % i, 1, chars, letters) for i in range(n)]
        got = rule.matches(" ".join(words))
        h.observe("matched", got)
        h.check(h.implies(got, DictLang(h, words).member(e)), "speech outside the rule's language matches")
        want = DictLang(h, words, lambda w: h.and_(*[folded(w) != folded(u) for u in used])).member(e)
        h.check(h.implies(want, got), "speech does not match, though the dictation has no words of literals")
        if got:
            check_data(h, e, " ".join(words))
        h.reach("matched" if got else "rejected")
    return fn


def joint(budget, nwords, inner):
    """Dictation in a referenced rule, with the trees joined as documented."""
    def fn(h):
        used = []

        def text(g, n):
            t = h.string(n, 1, 2, LETTERS)
            for u in used:
                h.assume(t != u)
            used.append(t)
            return t
        dicts = []

        class Limited(ExtGen):
            def mk_dict(self, name):
                dicts.append(name)
                return Dictation()

        def ref(g, name):
            return jsgf.RuleRef(jsgf.PrivateRule("x" + name, g.tree())) if g.left > 0 else jsgf.NullRef()
        g = Limited(h, budget, leaves=("lit", "dict", "ref"), inner=inner, text=text, ref=ref)
        e = g.tree()
        if len(dicts) != 1:
            return
        rule = jsgf.PublicRule("r", e)
        words = [h.string("w%d" % i, 1, 2, LETTERS) for i in range(1 + h.choose(nwords, "words"))]
        with jsgf.expansions.JointTreeContext(e):
            got = rule.matches(" ".join(words))
        h.observe("matched", got)
        h.check(h.implies(got, DictLang(h, words).member(e)), "speech outside the rule's language matches")
        want = DictLang(h, words, lambda w: h.and_(*[w != u for u in used])).member(e)
        h.check(h.implies(want, got), "speech does not match in a joint tree, though the dictation has no words of literals")
        h.reach("matched" if got else "rejected")
    return fn


CHARS = "aZ09_?,.-!;:'\u00e9\u0436/@+\""
SPOKEN = "?,.-_!;:'"


def characters(most):
    """The characters of dictated words."""
    def fn(h):
        lit = jsgf.Literal("x")
        e = h.pick((lambda: Dictation(), lambda: jsgf.Sequence(lit, Dictation()), lambda: jsgf.Sequence(Dictation(), lit)), "tree")()
        rule = jsgf.PublicRule("r", e)
        words = [h.string("w%d" % i, 1, most, CHARS) for i in range(1 + h.choose(2, "words"))]
        speech = (["x"] if isinstance(e, jsgf.Sequence) and e.children[0] is lit else []) + words + \
            (["x"] if isinstance(e, jsgf.Sequence) and e.children[1] is lit else [])
        got = rule.matches(" ".join(speech))
        h.observe("matched", got)
        want = h.and_(*[h.or_(*[c == x for x in SPOKEN + "aZ09\u00e9\u0436"]) for w in words for c in w])
        h.check(h.iff(want, got), "not exactly words of letters, digits and punctuation match as dictation")
        h.reach("matched" if got else "rejected")
    return fn


Q, T = ("quick",), ("thorough",)
B = Q + T
ALL = ("seq", "alt", "opt", "rep", "star")
MR = ("matched", "rejected")
SPECIAL = ("lit", "dict", "ref", "null", "void")
HARNESSES = [
    dict(name="one4", fn=trees(4, 3, ALL), tiers=B, reach=MR,
         bounds="rules of up to 4 nodes with one dictation and literals, words of 1 to 2 letters of ab, speech of 1 to 3 words"),
    dict(name="many4", fn=trees(4, 3, ALL, many=True), tiers=B, reach=MR,
         bounds="such rules with several dictation expansions, which are required"),
    dict(name="text4", fn=trees(4, 3, ("seq", "opt", "alt"), chars=1, letters="aAbB", two=True, case=True), tiers=B, reach=MR,
         bounds="such rules with literals of one or two words of one letter of aAbB, case sensitive or not"),
    dict(name="special4", fn=trees(4, 2, ("seq", "alt", "rep"), leaves=SPECIAL), tiers=B, reach=MR,
         bounds="such rules with <NULL>, <VOID> and references to rules with literals"),
    dict(name="joint4", fn=joint(4, 3, ("seq", "opt", "rep", "alt")), tiers=B, reach=MR,
         bounds="rules of up to 4 nodes with one dictation, also in a referenced rule, in a joint tree"),
    dict(name="characters2", fn=characters(2), tiers=B, reach=MR,
         bounds="one or two dictated words of up to 2 of the characters " + CHARS + ", alone or next to a literal"),
    dict(name="characters3", fn=characters(3), tiers=T, reach=MR, bounds="as characters2 with 3 characters"),
    dict(name="joint5", fn=joint(5, 3, ("seq", "opt", "rep", "alt")), tiers=T, reach=MR, bounds="as joint4 with 5 nodes"),
    dict(name="one5", fn=trees(5, 4, ALL), tiers=T, reach=MR, bounds="as one4 with 5 nodes and 4 words"),
    dict(name="many5", fn=trees(5, 4, ALL, many=True), tiers=T, reach=MR, bounds="as many4 with 5 nodes and 4 words"),
    dict(name="special5", fn=trees(5, 3, ALL, leaves=SPECIAL), tiers=T, reach=MR, bounds="as special4 with 5 nodes and 3 words"),
]
OUTSIDE = ["dictation in referenced rules, which is documented not to look at the literals after the reference",
           "rules that are changed after matching, for which the documentation requires a call",
           "completeness for several dictation expansions that are optional or repeated"]
