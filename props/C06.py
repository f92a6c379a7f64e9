"""C06: a rule whose words are all different matches all speech in its language."""
import jsgf
from symex.alph import LOWER
from props.gen import Gen
from props.matchref import Lang, speech_words


def distinct(h, used):
    def text(g, name):
        w = h.string(name, 1, 1, LOWER)
        for x in used:
            h.assume(w != x)
        used.append(w)
        return w
    return text


def complete(h, rule, words, speech, weight=None):
    want = Lang(h, words, weight).member(rule.expansion)
    got = rule.matches(speech)
    h.observe("matched", got)
    h.check(h.implies(want, got), "speech in the rule's language does not match")
    h.reach("matched" if got else "rejected")


def trees(budget, nwords, leaves=("lit",), inner=("seq", "alt", "opt", "rep", "star"), kids=3,
          empty=False, named=False):
    def fn(h):
        used, rules = [], []
        text = distinct(h, used)
        grammar = jsgf.Grammar("g")

        def ref(g, name):
            sub = g.tree() if g.left > 0 else jsgf.Literal(text(g, name))
            r = jsgf.PrivateRule("x" + name, sub)
            if not named:
                return jsgf.RuleRef(r)
            grammar.add_rule(r)
            return jsgf.NamedRuleRef("x" + name)
        g = Gen(h, budget, leaves=leaves, inner=inner, kids=kids, empty=empty, text=text, ref=ref)
        rule = jsgf.PublicRule("r", g.tree())
        if named:
            grammar.add_rule(rule)
        # Speech without words is only matched by optional rules.
        n = 1 + h.choose(nwords, "words")
        words = speech_words(h, n, LOWER)
        complete(h, rule, words, " ".join(words))
    return fn


def first_part(budget, nwords):
    """Searching speech finds the first part of it that is a sentence, if there is one."""
    def fn(h):
        used = []
        text = distinct(h, used)

        def ref(g, name):
            sub = g.tree() if g.left > 0 else jsgf.Literal(text(g, name))
            return jsgf.RuleRef(jsgf.PrivateRule("x" + name, sub))
        g = Gen(h, budget, leaves=("lit", "ref"), inner=("seq", "alt", "opt", "rep", "star"), text=text, ref=ref)
        rule = jsgf.PublicRule("r", g.tree())
        words = speech_words(h, 1 + h.choose(nwords, "words"), LOWER)
        got = rule.find_matching_part(" ".join(words))
        h.observe("part", got)
        for i in range(len(words)):
            if h.or_(*[Lang(h, words[i:j]).member(rule.expansion) for j in range(i + 1, len(words) + 1)]):
                h.check(bool(got), "no part is found although one is in the rule's language")
                h.check(got == " ".join(words[i:i + 1 + got.count(" ")]), "what is found is not the first part")
                h.reach("part")
                return
        h.check(not got, "a part is found although none is in the rule's language")
        h.reach("none")
    return fn


def weights(budget, nwords):
    def fn(h):
        used = []
        g = Gen(h, budget, inner=("seq", "alt", "opt", "rep"), text=distinct(h, used))
        e = g.tree()
        ws = {}
        for i, a in enumerate(g.alts):
            if h.bool("w%d" % i):
                for j in range(len(a.children)):
                    w = h.decimal("w%d.%d" % (i, j), 1, 2)
                    a.set_weight(j, w)
                    ws[id(a), j] = w
        if not ws:
            return
        words = speech_words(h, 1 + h.choose(nwords, "words"), LOWER)
        complete(h, jsgf.PublicRule("r", e), words, " ".join(words),
                 lambda a, j: ws[id(a), j] > 0 if (id(a), j) in ws else True)
    return fn


UP = LOWER + "ABCDEFGHIJKLMNOPQRSTUVWXYZ" + "0123456789'-_"


def text(words_in_literal, chars, nwords):
    """Literals of several words, any case, any spacing."""
    def fn(h):
        cs = h.bool("cs")
        used = []

        def lit(name):
            k = 1 + h.choose(words_in_literal, name + ".k")
            out = None
            for i in range(k):
                w = h.string("%s.%d" % (name, i), 1, chars, UP)
                for x in used:
                    h.assume(w.lower() != x.lower())
                used.append(w)
                out = w if out is None else out + h.pick((" ", "  "), "%s.sp%d" % (name, i)) + w
            return jsgf.Literal(out)
        shape = h.choose(4, "shape")
        a = lit("a")
        e = a if shape == 0 else jsgf.OptionalGrouping(a) if shape == 1 else \
            jsgf.Sequence(a, lit("b")) if shape == 2 else jsgf.AlternativeSet(a, lit("b"))
        rule = jsgf.PublicRule("r", e, case_sensitive=cs)
        n = 1 + h.choose(nwords, "words")
        words = speech_words(h, n, UP, chars=chars)
        speech = h.pick(("", " "), "lead") + words[0]
        for i, w in enumerate(words[1:]):
            speech = speech + h.pick((" ", "  ", "\t"), "sep%d" % i) + w
        speech = speech + h.pick(("", " "), "trail")
        complete(h, rule, words, speech)
    return fn


def grammar(nrules):
    """Grammar.find_matching_rules returns exactly the matching public rules."""
    def fn(h):
        used = []
        g = jsgf.Grammar("g")
        rules = []
        for i in range(nrules):
            w = h.string("t%d" % i, 1, 1, LOWER)
            kind = h.choose(3, "kind%d" % i)
            e = jsgf.Literal(w) if kind == 0 else jsgf.Repeat(w) if kind == 1 else \
                jsgf.Sequence(w, jsgf.OptionalGrouping(h.string("o%d" % i, 1, 1, LOWER)))
            if kind == 2:
                h.assume(e.children[0].text != e.children[1].child.text)
            r = jsgf.Rule(("rr0", "r1", "rrr2")[i], h.bool("public%d" % i), e)
            g.add_rule(r)
            if h.bool("off%d" % i):
                r.disable()
            rules.append(r)
        words = speech_words(h, 1 + h.choose(2, "words"), LOWER)
        found = g.find_matching_rules(" ".join(words))
        h.check(all(any(x is r for r in rules) for x in found), "an unknown rule was found")
        for r in rules:
            n = len([x for x in found if x is r])
            h.check(n <= 1, "a rule was found twice")
            want = Lang(h, words).member(r.expansion) if r.visible and r.active else False
            h.check(h.iff(want, n == 1), "a rule is missing from or should not be in the matching rules")
        order = [i for x in found for i, r in enumerate(rules) if r is x]
        h.check(order == sorted(order), "matching rules are not in the order of the grammar")
        h.reach("found" if found else "none")
    return fn


R = ("matched", "rejected")
ALL = "distinct literals of one symbolic letter, sequences, alternatives, optionals, repeats and Kleene stars"
SP = dict(leaves=("lit", "null", "void", "ref"), inner=("seq", "group", "alt", "opt", "rep", "star"), empty=True)
Q, T, B = ("quick",), ("thorough",), ("quick", "thorough")
HARNESSES = [
    dict(name="trees5", fn=trees(5, 3), tiers=Q, reach=R,
         bounds="every tree of at most 5 nodes (%s), speech of 1-3 words of one symbolic letter" % ALL),
    dict(name="specials4", fn=trees(4, 2, **SP), tiers=Q, reach=R,
         bounds="every tree of at most 4 nodes with references to rules, <NULL>, <VOID> and childless expansions too, speech of 1-2 words"),
    dict(name="named4", fn=trees(4, 2, leaves=("lit", "ref"), named=True), tiers=B, reach=R,
         bounds="every tree of at most 4 nodes with references by name in a grammar, speech of 1-2 words"),
    dict(name="part4", fn=first_part(4, 3), tiers=Q, reach=("part", "none"),
         bounds="first parts found for every tree of at most 4 nodes (with references) in speech of 1-3 words"),
    dict(name="part5", fn=first_part(5, 4), tiers=T, reach=("part", "none"), bounds="as part4 with 5 nodes and 4 words"),
    dict(name="weights4", fn=weights(4, 2), tiers=Q, reach=R,
         bounds="trees of at most 4 nodes, symbolic weights of the form d.dd, speech of 1-2 words"),
    dict(name="text", fn=text(2, 1, 3), tiers=Q, reach=R,
         bounds="one or two literals of at most 2 words of one symbolic character, both case sensitivities, speech of at most 3 words with any case and varying whitespace"),
    dict(name="grammar2", fn=grammar(2), tiers=Q, reach=("found", "none"),
         bounds="grammars of 2 rules, public or not, enabled or not, speech of 1-2 words"),
    dict(name="grammar3", fn=grammar(3), tiers=T, reach=("found", "none"),
         bounds="grammars of 3 rules, public or not, enabled or not, speech of 1-2 words"),
    dict(name="wide", fn=trees("wide", 6), tiers=B, reach=R, bounds="sequences, groups and sets of 4 or 6 children, any one of them within another expansion, speech of 1-6 words"),
    dict(name="deep", fn=trees("deep", 3), tiers=Q, reach=R, bounds="five expansions within each other, of two kinds in turn, speech of 1-3 words"),
    dict(name="deep6", fn=trees("deep", 6), tiers=T, reach=R, bounds="five expansions within each other, of two kinds in turn, speech of 1-6 words"),
    dict(name="trees6", fn=trees(6, 4), tiers=T, reach=R,
         bounds="every tree of at most 6 nodes (%s), speech of 1-4 words of one symbolic letter" % ALL),
    dict(name="specials5", fn=trees(5, 3, **SP), tiers=T, reach=R,
         bounds="every tree of at most 5 nodes with references to rules, <NULL>, <VOID> and childless expansions too, speech of 1-3 words"),
    dict(name="weights5", fn=weights(5, 3), tiers=T, reach=R,
         bounds="trees of at most 5 nodes, symbolic weights of the form d.dd, speech of 1-3 words"),
    dict(name="text2", fn=text(2, 2, 3), tiers=T, reach=R, bounds="as text with words of 1-2 characters"),
]
