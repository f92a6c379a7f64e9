"""C05: a rule only matches speech that is in its language."""
import jsgf
from symex.alph import LOWER
from props.gen import Gen
from props.matchref import Lang, speech_words

UP = LOWER + "ABCDEFGHIJKLMNOPQRSTUVWXYZ" + "0123456789'-_"


def word(g, name):
    return g.h.string(name, 1, 1, LOWER)


def sound(h, rule, words, speech, weight=None, e=None):
    want = Lang(h, words, weight).member(e or rule.expansion)
    got = rule.matches(speech)
    h.observe("matched", got)
    h.check(got is True or got is False, "matches does not return a boolean")
    h.check(h.implies(got, want), "speech outside of the rule's language matches")
    h.check(rule.was_matched == got, "was_matched differs from the result of matches")
    h.reach("matched" if got else "rejected")


def trees(budget, nwords, leaves=("lit",), inner=("seq", "alt", "opt", "rep", "star"), kids=3,
          empty=False):
    def fn(h):
        def ref(g, name):
            # a rule of its own, with what is left of the budget
            sub = g.tree() if g.left > 0 else jsgf.Literal(word(g, name))
            return jsgf.RuleRef(jsgf.PrivateRule("x" + name, sub))
        g = Gen(h, budget, leaves=leaves, inner=inner, kids=kids, empty=empty, text=word, ref=ref)
        rule = jsgf.PublicRule("r", g.tree())
        n = h.choose(nwords + 1, "words")
        words = speech_words(h, n, LOWER)
        sound(h, rule, words, " ".join(words))
    return fn


def weights(budget, nwords):
    def fn(h):
        g = Gen(h, budget, inner=("seq", "alt", "opt", "rep"), text=word)
        e = g.tree()
        ws = {}
        lits = [x for x in g.nodes if isinstance(x, jsgf.Literal)]
        for i, a in enumerate(lits):
            for b in lits[:i]:
                h.assume(a.text != b.text)
        for i, a in enumerate(g.alts):
            if h.bool("w%d" % i):
                for j in range(len(a.children)):
                    w = h.decimal("w%d.%d" % (i, j), 1, 1)
                    a.set_weight(j, w)
                    ws[id(a), j] = w
        if not ws:
            return
        n = h.choose(nwords + 1, "words")
        words = speech_words(h, n, LOWER)
        sound(h, jsgf.PublicRule("r", e), words, " ".join(words),
              lambda a, j: ws[id(a), j] > 0 if (id(a), j) in ws else True)
    return fn


def text(words_in_literal, chars, nwords):
    """One or two literals of several words, speech with any spacing."""
    def fn(h):
        cs = h.bool("cs")

        def lit(name):
            k = 1 + h.choose(words_in_literal, name + ".k")
            out = h.string(name + ".0", 1, chars, UP)
            for i in range(1, k):
                out = out + h.pick((" ", "  "), name + ".sp%d" % i) + \
                    h.string("%s.%d" % (name, i), 1, chars, UP)
            return jsgf.Literal(out)
        shape = h.choose(4, "shape")
        a = lit("a")
        e = a if shape == 0 else jsgf.OptionalGrouping(a) if shape == 1 else \
            jsgf.Sequence(a, lit("b")) if shape == 2 else jsgf.AlternativeSet(a, lit("b"))
        rule = jsgf.PublicRule("r", e, case_sensitive=cs)
        n = 1 + h.choose(nwords, "words")
        words = speech_words(h, n, UP, chars=chars)
        speech = h.pick(("", " "), "lead") + words[0]
        for i, w in enumerate(words[1:]):
            speech = speech + h.pick((" ", "  ", "\t"), "sep%d" % i) + w
        speech = speech + h.pick(("", " "), "trail")
        sound(h, rule, words, speech)
    return fn


def part(budget, nwords, leaves=("lit", "ref")):
    """The part that is found is a run of words of the speech, and a sentence."""
    def fn(h):
        def ref(g, name):
            sub = g.tree() if g.left > 0 else jsgf.Literal(word(g, name))
            return jsgf.RuleRef(jsgf.PrivateRule("x" + name, sub))
        g = Gen(h, budget, leaves=leaves, inner=("seq", "alt", "opt", "rep", "star"), text=word, ref=ref)
        rule = jsgf.PublicRule("r", g.tree())
        words = speech_words(h, 1 + h.choose(nwords, "words"), LOWER)
        sep = h.pick((" ", "  "), "sep")
        got = rule.find_matching_part(sep.join(words))
        h.observe("part", got)
        if not got:
            h.reach("none")
            return
        n = 1 + got.count(" ")
        for i in range(len(words) - n + 1):
            run = words[i:i + n]
            if got == " ".join(run):
                h.check(Lang(h, run).member(rule.expansion), "a part that is not in the rule's language is found")
                h.reach("part")
                return
        h.fail("what is found is no part of the speech")
    return fn


def disabled(h):
    g = Gen(h, 3, text=word)
    rule = jsgf.PublicRule("r", g.tree())
    words = speech_words(h, 1 + h.choose(2, "words"), LOWER)
    rule.disable()
    h.check(rule.matches(" ".join(words)) is False, "a disabled rule matches")
    h.check(rule.find_matching_part(" ".join(words)) is None, "a disabled rule matches a part")
    rule.enable()
    sound(h, rule, words, " ".join(words))


R = ("matched", "rejected")
ALL = "literals of one symbolic letter, sequences, alternatives, optionals, repeats and Kleene stars"
Q, T, B = ("quick",), ("thorough",), ("quick", "thorough")
HARNESSES = [
    dict(name="trees5", fn=trees(5, 3), tiers=Q, reach=R,
         bounds="every tree of at most 5 nodes (%s), speech of at most 3 words of one symbolic letter" % ALL),
    dict(name="specials4", fn=trees(4, 2, leaves=("lit", "null", "void", "ref"), inner=("seq", "group", "alt", "opt", "rep", "star"), empty=True), tiers=Q, reach=R,
         bounds="every tree of at most 4 nodes with references to rules, <NULL>, <VOID> and childless expansions too, speech of at most 2 words"),
    dict(name="weights5", fn=weights(5, 2), tiers=Q, reach=R,
         bounds="trees of at most 5 nodes, distinct literals, symbolic weights of the form d.d, speech of at most 2 words"),
    dict(name="text", fn=text(2, 1, 3), tiers=Q, reach=R,
         bounds="one or two literals of at most 2 words of one symbolic character, both case sensitivities, speech of at most 3 words of one character with any case and varying whitespace"),
    dict(name="part4", fn=part(4, 3), tiers=Q, reach=("part", "none"),
         bounds="parts found for every tree of at most 4 nodes (%s, references) in speech of at most 3 words" % ALL),
    dict(name="part5", fn=part(5, 4), tiers=T, reach=("part", "none"), bounds="as part4 with 5 nodes and 4 words"),
    dict(name="disabled", fn=disabled, tiers=B, reach=R, bounds="trees of at most 3 nodes, speech of 1-2 words, disabled and enabled rules"),
    dict(name="wide", fn=trees("wide", 6), tiers=B, reach=R, bounds="sequences, groups and sets of 4 or 6 children, any one of them within another expansion, speech of up to 6 words"),
    dict(name="deep", fn=trees("deep", 3), tiers=Q, reach=R, bounds="five expansions within each other, of two kinds in turn, speech of up to 3 words"),
    dict(name="deep6", fn=trees("deep", 6), tiers=T, reach=R, bounds="five expansions within each other, of two kinds in turn, speech of up to 6 words"),
    dict(name="trees6", fn=trees(6, 4), tiers=T, reach=R,
         bounds="every tree of at most 6 nodes (%s), speech of at most 4 words of one symbolic letter" % ALL),
    dict(name="specials5", fn=trees(5, 3, leaves=("lit", "null", "void", "ref"), inner=("seq", "group", "alt", "opt", "rep", "star"), empty=True), tiers=T, reach=R,
         bounds="every tree of at most 5 nodes with references to rules, <NULL>, <VOID> and childless expansions too, speech of at most 3 words"),
    dict(name="weights6", fn=weights(6, 3), tiers=T, reach=R,
         bounds="trees of at most 6 nodes, distinct literals, symbolic weights of the form d.d, speech of at most 3 words"),
    dict(name="text2", fn=text(2, 2, 3), tiers=T, reach=R,
         bounds="as text with words of 1-2 characters"),
]
