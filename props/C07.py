"""C07: match data describe one derivation of the speech; nothing is left otherwise."""
import jsgf
from symex.alph import LOWER
from props.gen import Gen
from props.matchref import speech_words, check_data, check_no_data, falsy, nodes


def word(g, name):
    return g.h.string(name, 1, 1, LOWER)


def run(h, rule, speech, norm):
    got = rule.matches(speech)
    h.observe("matched", got)
    e = rule.expansion
    h.observe("data", [[x.current_match, x.matching_slice] for x in nodes(e)])
    if got:
        if not falsy(e.current_match):
            h.check(e.current_match == norm or e.current_match.lower() == norm.lower(),
                    "the match of the rule is not the speech")
            h.check(e.matching_slice == slice(0, len(norm)), "the slice of the rule is not all of the speech")
        else:
            h.check(len(norm) == 0, "a matched rule has no current match")
        check_data(h, e, norm)
        h.reach("matched")
    else:
        check_no_data(h, e, "not matched")
        h.check(len(rule.matched_tags) == 0, "a rule that did not match has matched tags")
        for x in nodes(e):
            if isinstance(x, jsgf.Repeat):
                h.check(x.repetitions_matched == 0, "repetitions although the rule did not match")
        h.reach("rejected")


def trees(budget, nwords, leaves=("lit",), inner=("seq", "alt", "opt", "rep", "star"), kids=3,
          empty=False, tag=False):
    def fn(h):
        def ref(g, name):
            sub = g.tree() if g.left > 0 else jsgf.Literal(word(g, name))
            return jsgf.RuleRef(jsgf.PrivateRule("x" + name, sub))
        g = Gen(h, budget, leaves=leaves, inner=inner, kids=kids, empty=empty, text=word, ref=ref,
                tag=(lambda g, name: name) if tag else None)
        rule = jsgf.PublicRule("r", g.tree())
        words = speech_words(h, 1 + h.choose(nwords, "words"), LOWER)
        s = " ".join(words)
        run(h, rule, s, s)
    return fn


def weighted(nwords):
    """Weighted alternatives of equal words and zero weights."""
    def fn(h):
        n = 2 + h.choose(2, "n")
        kids = []
        for i in range(n):
            x = jsgf.Literal(h.string("t%d" % i, 1, 1, LOWER))
            for y in kids:
                h.assume(x.text != y.child.text if isinstance(y, jsgf.OptionalGrouping) or
                         isinstance(y, jsgf.Repeat) else x.text != y.text)
            k = h.choose(3, "k%d" % i)
            kids.append(x if k == 0 else jsgf.Repeat(x) if k == 1 else jsgf.OptionalGrouping(x))
        a = jsgf.AlternativeSet(*kids)
        for i in range(n):
            a.set_weight(i, h.pick((0, 1, 2), "w%d" % i))
        if h.bool("copy"):
            a = a.copy()
        rule = jsgf.PublicRule("r", a)
        words = speech_words(h, 1 + h.choose(nwords, "words"), LOWER)
        s = " ".join(words)
        run(h, rule, s, s)
        for i, c in enumerate(a.children):
            if not falsy(c.current_match):
                h.check(a.weights[c] > 0, "an alternative with weight 0 has a match")
    return fn


UP = LOWER + "ABCDEFGHIJKLMNOPQRSTUVWXYZ"


def text(chars, nwords):
    """Literals of several words, any case, any spacing."""
    def fn(h):
        cs = h.bool("cs")

        def lit(name):
            out = h.string(name + ".0", 1, chars, UP)
            if h.bool(name + ".two"):
                out = out + h.pick((" ", "  "), name + ".sp") + h.string(name + ".1", 1, chars, UP)
            return jsgf.Literal(out)
        shape = h.choose(4, "shape")
        a = lit("a")
        e = a if shape == 0 else jsgf.Repeat(a) if shape == 1 else \
            jsgf.Sequence(a, lit("b")) if shape == 2 else jsgf.AlternativeSet(a, lit("b"))
        rule = jsgf.PublicRule("r", e, case_sensitive=cs)
        words = speech_words(h, 1 + h.choose(nwords, "words"), UP, chars=chars)
        speech = h.pick(("", " "), "lead") + words[0]
        for i, w in enumerate(words[1:]):
            speech = speech + h.pick((" ", "  "), "sep%d" % i) + w
        speech = speech + h.pick(("", " "), "trail")
        run(h, rule, speech, " ".join(words))
    return fn


def remainder(budget, nwords):
    """Expansion.matches returns the words that were not matched."""
    def fn(h):
        g = Gen(h, budget, leaves=("lit", "null"), text=word)
        e = g.tree()
        words = speech_words(h, 1 + h.choose(nwords, "words"), LOWER)
        s = " ".join(words)
        e.reset_for_new_match()
        rest = e.matches(s)
        h.observe("rest", rest)
        m = e.current_match
        if falsy(m):
            h.check(rest == s, "nothing matched but the remainder is not the speech")
            h.reach("none")
        else:
            h.check((m + " " + rest if len(rest) else m) == s, "match and remainder are not the speech")
            h.reach("some")
            check_data(h, e, s)
    return fn


R = ("matched", "rejected")
ALL = "literals of one symbolic letter, sequences, alternatives, optionals, repeats and Kleene stars"
SP = dict(leaves=("lit", "null", "void", "ref"), inner=("seq", "group", "alt", "opt", "rep", "star"), empty=True)
Q, T, B = ("quick",), ("thorough",), ("quick", "thorough")
HARNESSES = [
    dict(name="trees5", fn=trees(5, 3, tag=True), tiers=Q, reach=R,
         bounds="every tree of at most 5 nodes (%s), speech of 1-3 words of one symbolic letter" % ALL),
    dict(name="specials4", fn=trees(4, 2, **SP), tiers=Q, reach=R,
         bounds="every tree of at most 4 nodes with references to rules, <NULL>, <VOID> and childless expansions too, speech of 1-2 words"),
    dict(name="weighted", fn=weighted(2), tiers=Q, reach=R,
         bounds="2-3 weighted alternatives (weights 0, 1, 2), copied or not, speech of 1-2 words"),
    dict(name="text", fn=text(1, 3), tiers=Q, reach=R,
         bounds="literals of 1-2 words, both case sensitivities, speech of 1-3 words of one character, any case and spacing"),
    dict(name="remainder4", fn=remainder(4, 3), tiers=B, reach=("none", "some"),
         bounds="every tree of at most 4 nodes, <NULL> included, speech of 1-3 words, matched without a rule"),
    dict(name="wide", fn=trees("wide", 6, tag=True), tiers=B, reach=R, bounds="sequences, groups and sets of 4 or 6 children, any one of them within another expansion, speech of 1-6 words"),
    dict(name="deep", fn=trees("deep", 6, tag=True), tiers=B, reach=R, bounds="five expansions within each other, of two kinds in turn, speech of 1-6 words"),
    dict(name="trees6", fn=trees(6, 4, tag=True), tiers=T, reach=R,
         bounds="every tree of at most 6 nodes (%s), speech of 1-4 words of one symbolic letter" % ALL),
    dict(name="specials5", fn=trees(5, 3, **SP), tiers=T, reach=R,
         bounds="every tree of at most 5 nodes with references to rules, <NULL>, <VOID> and childless expansions too, speech of 1-3 words"),
    dict(name="weighted3", fn=weighted(3), tiers=T, reach=R,
         bounds="2-3 weighted alternatives (weights 0, 1, 2), copied or not, speech of 1-3 words"),
    dict(name="text2", fn=text(2, 3), tiers=T, reach=R, bounds="as text with words of 1-2 characters"),
]
