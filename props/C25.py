"""C25: pickled expansions, rules and grammars, and deep copies of rules and grammars, are like the original."""
import copy
import jsgf
from jsgf.ext import Dictation, DictationGrammar, PublicSequenceRule
from symex.alph import LOWER
from props import C09, C13
from props.C13 import describe
from props.matchref import nodes, speech_words, state, states_equal


def linked(h, e, rule):
    """Parents and rules below e are right."""
    for x in nodes(e, refs=False):
        for y in x.children:
            h.check(y.parent is x, "a node of the new tree has another parent")
        h.check(x.root_expansion is e, "a node of the new tree has another root")
    h.check(e.parent is None, "the new tree has a parent")
    h.check(e.rule is rule, "the new tree does not belong to the new rule")


def equal_lists(h, a, b, msg):
    h.check(len(a) == len(b), msg)
    for x, y in zip(a, b):
        h.check(x == y, msg)


def new_of(h, obj, how, name="protocol"):
    if how:
        return copy.deepcopy(obj)
    return h.roundtrip(obj, h.pick((2, 4), name))


def trees(budget, leaves, inner, nwords, edit=False):
    def fn(h):
        e, _ = C13.tree(h, budget, leaves, inner, not edit, True, case=not edit)
        r = jsgf.PublicRule("r", e)
        used = h.choose(2 if edit else 3, "used")
        if used == 1:
            r.matches(h.string("p", 1, 1, LOWER))
        elif used == 2:
            xs = list(nodes(e, refs=False))
            xs[0].mutually_exclusive_of(xs[-1])
            xs[-1].is_descendant_of(xs[0])
            r.compile()
        xs = list(nodes(e, refs=False))
        which = h.choose(len(xs) + 2, "which")
        if which == len(xs):
            r2 = new_of(h, r, 0)
        elif which == len(xs) + 1:
            r2 = new_of(h, r, 1)
        else:
            x2 = new_of(h, xs[which], 0)
            e2 = x2.root_expansion
            h.check(x2 is list(nodes(e2, refs=False))[which], "the node is elsewhere in the new tree")
            r2 = e2.rule
            h.check(r2 is not None and r2.expansion is e2, "the new tree does not belong to the new rule")
        h.check(r2 is not r and r2.expansion is not e, "the original and not a new object")
        linked(h, e, r)
        linked(h, r2.expansion, r2)
        old = [id(x) for x in nodes(e, refs=False)]
        ys = list(nodes(r2.expansion, refs=False))
        h.check(not any(id(y) in old for y in ys), "a node is shared with the original")
        equal_lists(h, describe(e), describe(r2.expansion), "the new tree differs from the original")
        h.check(r2 == r and r == r2, "the new rule does not equal the original")
        h.check(r2.compile() == r.compile(), "the new rule compiles to something else")
        h.check([type(y).__name__ for y in ys] == [type(x).__name__ for x in xs], "the new tree has other classes")
        if which < len(xs) + 1:
            h.check(states_equal(state(r), state(r2)), "the match data were lost")
        i, j = len(xs) - 1, 0
        h.check(xs[i].is_descendant_of(xs[j]) == ys[i].is_descendant_of(ys[j]), "another descendant")
        if edit:
            a, b = (r, r2) if h.bool("edit.original") else (r2, r)
            before, s0 = describe(b.expansion), state(b)
            if not h.pick(C13.EDITS, "ed")(h, a, "ed"):
                return
            try:
                a.matches(h.string("q", 1, 1, LOWER))
            except jsgf.GrammarError:  # weights are missing after the edit
                pass
            equal_lists(h, before, describe(b.expansion), "editing one changed the other")
            h.check(states_equal(s0, state(b)), "matching one changed the match data of the other")
        s = " ".join(speech_words(h, 1 + h.choose(nwords, "words"), LOWER))
        other = jsgf.PublicRule("r", C13.clone(b.expansion)) if edit else r
        want = other.matches(s)
        got = (b if edit else r2).matches(s)
        h.observe("got", got)
        h.check(got == want, "the new rule matches other speech")
        h.check(states_equal(state(b if edit else r2), state(other)), "the new rule has other match data")
        h.reach("matched" if want else "rejected")
    return fn


def rule_fields(h, a, b):
    h.check(type(a).__name__ == type(b).__name__, "a rule of another class")
    h.check(a.name == b.name and a.visible == b.visible and a.active == b.active and
            a.case_sensitive == b.case_sensitive, "a rule has other settings")


def grammars(kinds, hows, later=False):
    """Grammars with imports and rules that refer to each other."""
    def fn(h):
        kind = h.pick(kinds, "kind")
        cs = not later and h.bool("cs")
        w = [h.string("w%d" % i, 1, 1, LOWER) for i in range(3)]
        if later:
            h.assume(w[1] != w[2])
        g = kind(name="g")
        how = h.pick(hows, "how")
        named = True if how else h.bool("named")
        if not later and h.bool("settings"):
            g.charset_name, g.language_name, g.jsgf_version = "utf-8", "en", "2.0"
            g.add_import(jsgf.Import("a.b.*"))
            g.add_import(jsgf.Import("a.c.d"))
        x = jsgf.PrivateRule("x", jsgf.AlternativeSet(w[1], w[2]))
        if h.bool("weights"):
            h.assume(w[1] != w[2])
            x.expansion.set_weight(0, 2)
            x.expansion.set_weight(1, h.pick((0, 1), "weight"))
        r = jsgf.PublicRule("r", jsgf.Sequence(w[0], jsgf.NamedRuleRef("x") if named else jsgf.RuleRef(x)))
        g.add_rules(*((x, r) if not later and h.bool("x first") else (r, x)))
        g.case_sensitive = cs
        off = h.choose(3, "disabled")
        if off:
            (x, r)[off - 1].disable()
        p = w[0] + " " + w[1]
        if not later and h.bool("used"):
            g.find_matching_rules(p)
        what = h.choose(4, "what")
        if what == 0:
            g2 = new_of(h, g, how)
        elif what < 3:
            z = (x, r)[what - 1]
            z2 = new_of(h, z, how)
            g2 = z2.grammar
            h.check(any(z2 is y for y in g2.rules), "the new rule is not in the new grammar")
            h.check(z2.name == z.name, "another rule")
        else:
            if how:
                return
            g2 = new_of(h, x.expansion.children[1], how).root_expansion.rule.grammar
        h.check(g2 is not g and type(g2) is type(g), "not a new grammar")
        h.check(g2.name == g.name and g2.charset_name == g.charset_name and g2.language_name == g.language_name and
                g2.jsgf_version == g.jsgf_version and g2.case_sensitive == g.case_sensitive, "the grammar has other settings")
        h.check([i.name for i in g2.imports] == [i.name for i in g.imports], "the grammar has other imports")
        h.check(len(g2.rules) == 2, "the grammar has other rules")
        for a, b in zip(g.rules, g2.rules):
            rule_fields(h, a, b)
            h.check(b is not a, "the rule of the original grammar")
            h.check(b.grammar is g2 and a.grammar is g, "a rule belongs to another grammar")
            linked(h, a.expansion, a)
            linked(h, b.expansion, b)
            equal_lists(h, describe(a.expansion), describe(b.expansion), "the expansion of a rule differs")
            if b.name == "r":
                ref = b.expansion.children[1]
                h.check(any(ref.referenced_rule is y for y in g2.rules), "a reference to a rule of another grammar")
        h.check(g2 == g and g == g2, "the new grammar does not equal the original")
        text = g.compile()
        h.check(g2.compile() == text, "the new grammar compiles to something else")
        if later:
            a, b = (g, g2) if h.bool("edit.original") else (g2, g)
            n = h.choose(5, "edit")
            ar = {y.name: y for y in a.rules}
            if n == 0:
                a.disable_rule("r")
            elif n == 1:
                a.remove_rule("r")
            elif n == 2:
                a.add_rule(jsgf.PublicRule("n", "n"))
            elif n == 3:
                ar["x"].expansion.children[0].text = "zz"
            else:
                a.case_sensitive = not a.case_sensitive
            h.check(b.compile() == text and len(b.rules) == 2, "editing one grammar changed the other")
            rules = (b,)
        else:
            rules = (g2, g)
        s = " ".join(speech_words(h, 2, LOWER))
        ok = h.and_(s[0:1] == w[0], h.or_(s[2:3] == w[1], s[2:3] == w[2]))
        if x.expansion.weights and x.expansion.weights[x.expansion.children[1]] == 0:
            ok = h.and_(s[0:1] == w[0], s[2:3] == w[1])
        if off:
            ok = False
        names = []
        for z in rules:
            got = [y.name for y in z.find_matching_rules(s)]
            h.observe("got", got)
            names.append(got)
            if off != 1:
                h.check(h.iff(len(got) > 0, ok), "the grammar matches other speech")
                h.check(got == [] or got == ["r"], "other rules match")
            for y in z.find_matching_rules(s):
                h.check(any(y is q for q in z.rules), "a rule of another grammar matches")
        h.check(names[0] == names[-1], "the new grammar matches other speech")
        h.reach("done")
    return fn


def sequences(h):
    """Sequence rules and rules with dictation that are saved between utterances."""
    a, b = h.string("a", 1, 1, "ab"), h.string("b", 1, 1, "ab")
    make = (lambda: jsgf.Sequence(a, Dictation(), b), lambda: jsgf.Sequence(Dictation(), a, Dictation()),
            lambda: jsgf.Sequence(Dictation(), Dictation()), lambda: jsgf.Repeat(jsgf.Sequence(a, Dictation())))[h.choose(4, "tree")]
    r = PublicSequenceRule("r", make())
    twin = PublicSequenceRule("r", make())
    n = h.choose(3, "before")
    for i in range(n):
        s = h.string("s%d" % i, 1, 1, "ab")
        h.check(r.matches(s) == twin.matches(s), "the same rule matches something else")
        if r.has_next_expansion and r.expansion.current_match is not None:
            r.set_next()
            twin.set_next()
    how = h.choose(3, "how")
    if how == 0:
        r2 = h.roundtrip(r, h.pick((2, 4), "protocol"))
    elif how == 1:
        r2 = h.roundtrip(r.expansion, 2).rule
    else:
        r2 = copy.deepcopy(r)
    h.check(r2 is not r, "not a new rule")
    h.check(r2 == r and r2.compile() == r.compile(), "the new rule does not equal the original")
    h.check(r2.current_is_dictation_only == r.current_is_dictation_only and r2.has_next_expansion == r.has_next_expansion and
            r2.can_repeat == r.can_repeat, "the new rule is elsewhere in its sequence")
    h.check(r2.expansion.rule is r2 and r.expansion.rule is r, "the current part belongs to another rule")
    for i in range(2):
        s = h.string("t%d" % i, 1, 1, "ab")
        want = twin.matches(s)
        got = r2.matches(s)
        h.observe("got", got)
        h.check(got == want, "the new rule matches something else")
        h.check(how == 2 or states_equal(state(r2), state(twin)), "the new rule has other match data")
        if r2.has_next_expansion and got:
            r2.set_next()
            twin.set_next()
        h.check(r2.has_next_expansion == twin.has_next_expansion, "the new rule is elsewhere in its sequence")
    if how < 2:  # copies of expansions don't keep what they matched
        h.check(r2.entire_match == twin.entire_match, "the matches of the parts were lost")
    r2.restart_sequence()
    twin.restart_sequence()
    h.check(r2.compile() == twin.compile(), "the restarted rule compiles to something else")
    h.reach("done")


def dictation_grammars(h):
    w = [h.string("w%d" % i, 1, 1, "ab") for i in range(2)]
    rules = [jsgf.PublicRule("r", jsgf.Sequence(w[0], Dictation())),
             jsgf.PublicRule("s", jsgf.AlternativeSet(w[1], Dictation()))]
    g, twin = (DictationGrammar([jsgf.PublicRule(r.name, r.expansion.copy()) for r in rules]) for _ in "ab")
    if h.bool("disabled"):
        g.disable_rule("s")
        twin.disable_rule("s")
    for i in range(h.choose(2, "before")):
        s = h.string("s%d" % i, 1, 1, "ab")
        h.check([r.name for r in g.find_matching_rules(s)] == [r.name for r in twin.find_matching_rules(s)], "other rules match")
    g2 = new_of(h, g, h.bool("how"))
    h.check(g2 is not g and type(g2) is type(g), "not a new grammar")
    h.check(g2.compile() == twin.compile(), "the new grammar compiles to something else")
    h.check(len(g2.rules) == len(twin.rules), "the new grammar has other rules")
    s = " ".join(h.string("t%d" % i, 1, 1, "ab") for i in range(1 + h.choose(2, "words")))
    got, want = g2.find_matching_rules(s), twin.find_matching_rules(s)
    h.observe("got", [r.name for r in got])
    h.check([r.name for r in got] == [r.name for r in want], "other rules match in the new grammar")
    h.check(all(any(r is x for x in g2.rules) for r in got), "a rule of another grammar matches")
    text = g.compile()
    g2.remove_rule("r")
    h.check([r.name for r in g.match_rules] == [r.name for r in twin.match_rules], "removing a rule from the new grammar changed the original")
    g2.enable_rule("s")
    h.check(g.compile() == text, "changing the new grammar changed the original")
    h.reach("done")


Q, T = ("quick",), ("thorough",)
B = Q + T
R = ("matched", "rejected")
G = (jsgf.Grammar, jsgf.RootGrammar)
LV, INN = ("lit", "ref", "null", "void"), ("seq", "group", "alt", "opt", "rep", "star")
TREES = ("rules of at most %d nodes (%s) with symbolic tags, texts of one symbolic letter of either case and weights; new, matched or "
         "with stored calculations; any node or the rule pickled (protocols 2 and 4) or the rule deep-copied; then matched with %d symbolic word(s)")
HARNESSES = [
    dict(name="trees", fn=trees(3, ("lit", "ref"), ("seq", "alt", "opt", "rep"), 1), tiers=B, reach=R,
         bounds=TREES % (3, "literals, references by object, sequences, sets, optionals, repeats", 1)),
    dict(name="kinds", fn=trees(2, LV, INN, 1), tiers=B, reach=R, bounds=TREES % (2, "of every kind", 1)),
    dict(name="kinds3", fn=trees(3, LV, INN, 1), tiers=T, reach=R, bounds=TREES % (3, "of every kind", 1)),
    dict(name="trees4", fn=trees(4, ("lit",), ("seq", "alt", "rep"), 2), tiers=T, reach=R,
         bounds=TREES % (4, "literals, sequences, sets, repeats", 2)),
    dict(name="edit", fn=trees(2, ("lit",), ("seq", "alt", "opt", "rep"), 1, True), tiers=Q, reach=R,
         bounds=TREES % (2, "literals, sequences, sets, optionals, repeats", 1) + " after an edit of either (append, pop, item and children "
         "assignment, clear, text, case sensitivity, weight, tag) and a match"),
    dict(name="edit3", fn=trees(3, ("lit",), ("seq", "alt", "opt", "rep"), 1, True), tiers=T, reach=R, bounds="as edit with 3 nodes"),
    dict(name="grammars", fn=grammars(G, (0, 1)), tiers=B, reach=("done",),
         bounds="grammars and root grammars of 2 rules, one with alternatives with or without weights, the other with a reference to it by name or "
                "by object (pickles only), any case sensitivity, either or none disabled, with or without header and imports, matched "
                "before or not; the grammar, a rule or an expansion pickled or deep-copied; 2 symbolic words matched with both"),
    dict(name="grammars-edit", fn=grammars(G, (0, 1), True), tiers=B, reach=("done",),
         bounds="as grammars; one is edited (rule disabled, removed, added, text, case sensitivity) and the other then matched"),
    dict(name="sequences", fn=sequences, tiers=B, reach=("done",),
         bounds="4 sequence rules with dictation after up to 2 utterances, pickled as rule or part, or deep-copied; 2 more utterances"),
    dict(name="dictation-grammars", fn=dictation_grammars, tiers=B, reach=("done",),
         bounds="dictation grammars of 2 rules, after up to 1 utterance, pickled or deep-copied; an utterance of up to 2 words"),
    dict(name="wide", fn=trees("wide4", ("lit",), INN, 1), tiers=T, reach=R, bounds="sequences, groups and sets of 4 children, any one of them within another expansion, 1 word"),
    dict(name="deep", fn=trees("deep3", ("lit",), INN, 1), tiers=T, reach=R, bounds="three expansions within each other, of two kinds in turn, 1 word"),
]
OUTSIDE = ["deep copies of rules and grammars with references by rule object (the copies reference the original rules, as the tests require)",
           "shallow copies of rules and grammars", "loading pickles of other versions of the library"]
