"""C08: matching does not depend on what was done with the rule before."""
import jsgf
from symex.alph import LOWER
from props.gen import Gen, clone_rule
from props.matchref import speech_words, state, states_equal


def word(g, name):
    return g.h.string(name, 1, 1, LOWER)


def op_match(h, r, name, n):
    r.matches(" ".join(speech_words(h, 1 + h.choose(n, name + ".n"), LOWER, name)))


def op_part(h, r, name, n):
    r.find_matching_part(" ".join(speech_words(h, 1 + h.choose(n, name + ".n"), LOWER, name)))


def op_direct(h, r, name, n):
    r.expansion.matches(" ".join(speech_words(h, 1 + h.choose(n, name + ".n"), LOWER, name)))


def op_tags(h, r, name, n):
    r.get_tags_matching(" ".join(speech_words(h, 1, LOWER, name)))


def op_look(h, r, name, n):
    r.compile()
    str(r)
    hash(r)
    r.tags
    r.dependencies
    r.expansion.copy()


def op_join(h, r, name, n):
    with jsgf.JointTreeContext(r.expansion):
        for x in r.expansion.leaves:
            x.mutually_exclusive_of(r.expansion)


def op_off(h, r, name, n):
    r.disable()
    r.matches(" ".join(speech_words(h, 1, LOWER, name)))
    r.enable()


OPS = (op_match, op_part, op_direct, op_tags, op_look, op_join, op_off)


def history(budget, nwords, nops, ops, prior, leaves=("lit",), inner=("seq", "alt", "opt", "rep", "star"),
            kids=3, empty=False, tag=True):
    def fn(h):
        def ref(g, name):
            sub = g.tree() if g.left > 0 else jsgf.Literal(word(g, name))
            return jsgf.RuleRef(jsgf.PrivateRule("x" + name, sub))
        g = Gen(h, budget, leaves=leaves, inner=inner, kids=kids, empty=empty, text=word, ref=ref,
                tag=(lambda g, name: name) if tag else None)
        rule = jsgf.PublicRule("r", g.tree())
        fresh = clone_rule(rule)
        for i in range(nops):
            h.pick(ops, "op%d" % i)(h, rule, "p%d" % i, prior)
        speech = " ".join(speech_words(h, 1 + h.choose(nwords, "words"), LOWER))
        want = fresh.matches(speech)
        got = rule.matches(speech)
        h.observe("matched", got)
        h.check(got == want, "the result depends on what was done before")
        h.check(rule.was_matched == fresh.was_matched, "was_matched depends on what was done before")
        a, b = state(rule), state(fresh)
        h.observe("state", a)
        h.check(states_equal(a, b), "the match data depend on what was done before")
        h.check(rule.matched_tags == fresh.matched_tags, "the matched tags depend on what was done before")
        h.reach("matched" if got else "rejected")
    return fn


R = ("matched", "rejected")
SP = dict(leaves=("lit", "null", "void", "ref"), inner=("seq", "alt", "opt", "rep"), empty=True, tag=False)
Q, T, B = ("quick",), ("thorough",), ("quick", "thorough")
ALL = "literals of one symbolic letter, sequences, alternatives, optionals, repeats, Kleene stars, all tagged"
HARNESSES = [
    dict(name="matches4", fn=history(4, 2, 1, (op_match, op_part, op_direct), 2), tiers=Q, reach=R,
         bounds="every tree of at most 4 nodes (%s), one earlier match (whole, part or without the rule) of 1-2 words, speech of 1-2 words" % ALL),
    dict(name="ops3", fn=history(3, 2, 2, OPS, 1), tiers=Q, reach=R,
         bounds="every tree of at most 3 nodes (%s), every history of 2 operations out of 7, speech of 1-2 words" % ALL),
    dict(name="specials3", fn=history(3, 2, 1, OPS, 2, **SP), tiers=Q, reach=R,
         bounds="every tree of at most 3 nodes with references to rules, <NULL>, <VOID> and childless expansions too, one earlier operation, speech of 1-2 words"),
    dict(name="matches5", fn=history(5, 3, 1, (op_match, op_part, op_direct), 3), tiers=T, reach=R,
         bounds="every tree of at most 5 nodes (%s), one earlier match (whole, part or without the rule) of 1-3 words, speech of 1-3 words" % ALL),
    dict(name="wide", fn=history("wide4", 2, 1, (op_match, op_part, op_direct), 2), tiers=Q, reach=R, bounds="sequences, groups and sets of 4 children, any one of them within another expansion, an earlier operation with 1-2 words and speech of 1-2 words"),
    dict(name="wide3", fn=history("wide4", 3, 1, (op_match, op_part, op_direct), 3), tiers=T, reach=R, bounds="sequences, groups and sets of 4 children, any one of them within another expansion, an earlier operation with 1-3 words and speech of 1-3 words"),
    dict(name="deep", fn=history("deep3", 2, 1, (op_match, op_part, op_direct), 2), tiers=Q, reach=R, bounds="three expansions within each other, of two kinds in turn, an earlier operation with 1-2 words and speech of 1-2 words"),
    dict(name="deep5", fn=history("deep", 2, 1, (op_match, op_part, op_direct), 2), tiers=T, reach=R, bounds="five expansions within each other, of two kinds in turn, an earlier operation with 1-2 words and speech of 1-2 words"),
    dict(name="ops4", fn=history(4, 2, 2, OPS, 1), tiers=T, reach=R,
         bounds="every tree of at most 4 nodes (%s), every history of 2 operations out of 7, speech of 1-2 words" % ALL),
    dict(name="specials4", fn=history(4, 2, 1, OPS, 2, **SP), tiers=T, reach=R,
         bounds="every tree of at most 4 nodes with references to rules, <NULL>, <VOID> and childless expansions too, one earlier operation, speech of 1-2 words"),
]
