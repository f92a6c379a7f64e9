"""C24: dictation grammars keep, compile and match the rules that their history leaves."""
import jsgf
from jsgf.ext import Dictation, DictationGrammar, SequenceRule
from jsgf.ext.expansions import expand_dictation_expansion
from props.C21 import has_dictation

LETTERS = "abAB"
S, L, A, O = jsgf.Sequence, jsgf.Literal, jsgf.AlternativeSet, jsgf.OptionalGrouping


def plain(a, b):
    return L(a)


def first(a, b):
    return S(L(a), Dictation())


def last(a, b):
    return S(Dictation(), L(a))


def either(a, b):
    return A(L(a), Dictation())


def both(a, b):
    return A(S(L(a), Dictation()), S(L(b), Dictation()))


def maybe(a, b):
    return S(L(a), O(Dictation()), L(b))


class Model:
    """An original rule and independent copies of what it stands for."""

    def __init__(self, rule, e, visible, cs, direct):
        self.rule = rule
        self.visible = visible
        self.names = []
        self.rules = []
        xs = [e] if direct or not has_dictation(e) else expand_dictation_expansion(e)
        for i, x in enumerate(xs):
            name = rule.name if len(xs) == 1 else "%s_%d" % (rule.name, i)
            self.names.append(name)
            cls = SequenceRule if direct or has_dictation(x) else jsgf.Rule
            self.rules.append(cls(name, visible, x, cs))


def header(g):
    return "#JSGF V1.0;\ngrammar g;\n"


def check_grammar(h, g, models, imports):
    lines = []
    for m in models:
        for r in m.rules:
            c = r.compile()
            if c:
                lines.append(c)
    got = g.compile()
    if not lines:
        h.check(got == "", "compiled something without rules")
        h.check(g.compile_as_root_grammar() == "", "compiled a root grammar without rules")
    else:
        start = "#JSGF V1.0;\ngrammar g;\n" + "".join("import <%s>;\n" % i for i in imports)
        h.check(got.startswith(start), "wrong header or imports")
        rest = got[len(start):].split("\n")
        h.check(rest[-1] == "" and len(rest) == len(lines) + 1, "wrong number of compiled rules")
        for x in lines:
            h.check(h.or_(*[x == y for y in rest]), "a rule is not compiled, or as another one")
    originals = [m.rule for m in models]
    rules = g.rules
    for r in originals:
        h.check(any(x == r for x in rules) and r.grammar is g, "a rule is not in the grammar")
    for x in rules:
        h.check(any(x is r for r in originals) or any(x is r for o in originals for r in g.get_generated_rules(o)),
                "a rule in the grammar was not added")
    for m in models:
        made = list(g.get_generated_rules(m.rule))
        h.check([x.name for x in made] == m.names, "wrong generated rules")
        for x, r in zip(made, m.rules):
            h.check(g.get_original_rule(x) is m.rule, "wrong original rule of a generated rule")
            h.check(x.visible == r.visible and x.active == r.active and x.case_sensitive == r.case_sensitive and x.compile() == r.compile(),
                    "a generated rule is not as it should be")
    want = [x for m in models if m.visible for x in m.names]
    got = [r.name for r in g.match_rules]
    h.check(sorted(got) == sorted(want), "wrong rules for matching")


def history(templates, script, maxwords=2, names=("p", "q"), direct=False, chars=LETTERS):
    def fn(h):
        cs = h.bool("cs")
        g = DictationGrammar(name="g", case_sensitive=cs)
        models, imports, made = [], [], 0
        for step, ops in enumerate(script):
            op = h.pick(ops, "op%d" % step)
            if op == "add":
                t = h.pick(templates, "t%d" % step)
                name = h.pick(names, "name%d" % step)
                a, b = h.string("a%d" % step, 1, 1, chars), h.string("b%d" % step, 1, 1, chars)
                h.assume(a.lower() != b.lower())
                visible = h.bool("visible%d" % step)
                seq = direct and t in (first, last) and h.bool("direct%d" % step)
                rule = SequenceRule(name, visible, t(a, b)) if seq else jsgf.Rule(name, visible, t(a, b))
                new = Model(rule, t(a, b), visible, cs, seq)
                taken = [x for m in models for x in m.names + [m.rule.name]]
                present = [r for r in g.rules]
                if any(x in taken for x in new.names + [name]):
                    try:
                        g.add_rule(rule)
                    except jsgf.GrammarError:
                        h.reach("taken")
                    else:
                        h.check(any(r == rule for r in present), "two rules of one name")
                else:
                    g.add_rule(rule)
                    models.append(new)
                    h.reach("added")
            elif op == "remove":
                name = h.pick(names, "name%d" % step)
                found = [m for m in models if m.rule.name == name]
                by_name = h.bool("by name%d" % step)
                if found:
                    g.remove_rule(name if by_name else found[0].rule)
                    models.remove(found[0])
                    h.check(found[0].rule.grammar is None, "a removed rule still has its grammar")
                    h.reach("removed")
                elif by_name:
                    try:
                        g.remove_rule(name)
                    except jsgf.GrammarError:
                        pass
                    else:
                        h.fail("removed a rule that is not in the grammar")
            elif op == "match":
                speech = " ".join(h.string("w%d.%d" % (step, i), 1, 1, chars) for i in range(1 + h.choose(maxwords, "words%d" % step)))
                advance = h.bool("advance%d" % step)
                got = g.find_matching_rules(speech, advance)
                h.observe("matching", [r.name for r in got])
                count = 0
                for m in models:
                    complete = []
                    for n, r in zip(m.names, m.rules):
                        ok = m.visible and r.matches(speech)
                        mine = [x for x in got if x.name == n]
                        h.check(len(mine) == (1 if ok else 0), "not exactly the matching rules were found")
                        if not ok:
                            continue
                        count += 1
                        h.check(g.get_original_rule(mine[0]) is m.rule, "wrong original rule of a matching rule")
                        if isinstance(r, SequenceRule):
                            h.check(mine[0].entire_match == r.entire_match, "wrong entire match")
                            complete.append(r.entire_match)
                            if advance:
                                r.set_next()
                        else:
                            complete.append(mine[0].expansion.current_match)
                    if len(complete) == 1 and complete[0] is not None:
                        e = m.rule.original_expansion if isinstance(m.rule, SequenceRule) else m.rule.expansion
                        h.check(e.current_match == complete[0], "the original rule does not have the match")
                        h.reach("entire")
                h.check(count == len(got), "a rule was found that is not in the grammar")
                h.reach("found" if got else "not found")
            elif op == "reset":
                g.reset_sequence_rules()
                for m in models:
                    for r in m.rules:
                        if isinstance(r, SequenceRule):
                            r.restart_sequence()
            elif op == "switch":
                m = h.pick(models, "m%d" % step) if models else None
                if m is not None:
                    on = h.bool("on%d" % step)
                    target = m.rule if h.bool("object%d" % step) else m.rule.name
                    (g.enable_rule if on else g.disable_rule)(target)
                    for r in m.rules + [m.rule]:
                        (r.enable if on else r.disable)()
            elif op == "case":
                cs = h.bool("cs%d" % step)
                g.case_sensitive = cs
                h.check(g.case_sensitive == cs, "wrong case sensitivity")
                for m in models:
                    for r in m.rules:
                        r.case_sensitive = cs
            elif op == "import":
                g.add_import(jsgf.Import("x.y.z"))
                imports = ["x.y.z"]
            else:
                continue
            check_grammar(h, g, models, imports)
    return fn


def references():
    """Rules that others reference are only removed when asked to."""
    def fn(h):
        cs = h.bool("cs")
        g = DictationGrammar(name="g", case_sensitive=cs)
        a, b = h.string("a", 1, 1, LETTERS), h.string("b", 1, 1, LETTERS)
        x = jsgf.PrivateRule("x", h.pick((lambda: L(b), lambda: S(L(b), Dictation()), lambda: Dictation()), "x")())
        e = h.pick((lambda: S(L(a), jsgf.RuleRef(x)), lambda: S(L(a), jsgf.RuleRef(x), Dictation()),
                    lambda: A(L(a), jsgf.RuleRef(x)), lambda: S(Dictation(), L(a))), "r")()
        r = jsgf.PublicRule("r", e)
        if h.bool("order"):
            g.add_rules(x, r)
        else:
            g.add_rules(r, x)
        uses = x in r.dependencies
        force = h.bool("force")
        before = g.compile()
        names = sorted(g.rule_names)
        target = "x" if h.bool("name") else x
        try:
            g.remove_rule(target, force)
        except jsgf.GrammarError:
            h.check(uses and not force, "cannot remove a rule that is not referenced")
            h.check(g.compile() == before and sorted(g.rule_names) == names and x.grammar is g,
                    "a rule that could not be removed is not all there")
            h.reach("kept")
        else:
            h.check(force or not uses, "removed a rule that another one references")
            h.check("x" not in g.rule_names and "x_0" not in g.rule_names and x.grammar is None, "a removed rule is still there")
            h.check(sorted(g.rule_names) == [n for n in names if not n.startswith("x")], "other rules were removed too")
            h.reach("removed")
        # In reverse order, nothing is referenced.
        g.remove_rule("r")
        if x.grammar is g:
            g.remove_rule("x")
        h.check(g.rules == [] and g.match_rules == [] and g.find_matching_rules("a") == [], "removed rules are still there")
    return fn


Q, T = ("quick",), ("thorough",)
B = Q + T
TEMPLATES = (plain, first, last, either, both, maybe)
FEW = (plain, first, both)
ADD, MATCH = ("add",), ("match",)
CHANGE = ("remove", "match", "reset", "switch", "case", "import")
HARNESSES = [
    dict(name="one4", fn=history(TEMPLATES, (ADD, MATCH, CHANGE, ("match", "reset", "switch", "case")), 1, names=("p",)), tiers=B,
         reach=("added", "removed", "found", "not found", "entire"),
         bounds="one rule of 6 kinds (words of one letter of abAB), public or private, in a grammar that is case sensitive or not; a match with or without going on, "
                "any change (removal, match, reset, enabling, disabling, case sensitivity, import), a match or another change; speech of one word"),
    dict(name="two3", fn=history(FEW, (ADD, ADD, CHANGE), 1, names=("p", "p_0"), chars="ab"), tiers=B,
         reach=("added", "removed", "found", "not found", "taken"), bounds="two rules of 3 kinds with the names p and p_0, which is also that of a generated rule, and any change"),
    dict(name="sequence-rules3", fn=history((first, last), (ADD, MATCH, CHANGE), 2, names=("p",), direct=True), tiers=B,
         reach=("added", "removed", "found", "not found", "entire"), bounds="a rule or a sequence rule with dictation, a match of up to 2 words and any change"),
    dict(name="references", fn=references(), tiers=B, reach=("kept", "removed"), bounds="a rule with or without dictation that references another one or not, and its removal by name or object, forced or not"),
    dict(name="three-matches", fn=history((both, maybe), (ADD, MATCH, MATCH, MATCH), 1, names=("p",), chars="ab"), tiers=B,
         reach=("added", "found", "not found", "entire"), bounds="a rule that becomes several ones and three matches"),
    dict(name="one5", fn=history(TEMPLATES, (ADD, MATCH, CHANGE, ("match", "reset", "switch", "case"), MATCH), 2, names=("p",)), tiers=T,
         reach=("added", "removed", "found", "not found", "entire"), bounds="as one4 with another match and speech of up to 2 words"),
    dict(name="two4", fn=history(FEW, (ADD, ADD, CHANGE + ADD, CHANGE), 1, names=("p", "p_0"), chars="ab"), tiers=T,
         reach=("added", "removed", "found", "not found", "taken"), bounds="as two3 with another change"),
]
OUTSIDE = ["references by name, which have to be resolved when a rule is added",
           "changes of rules that are in the grammar other than their case sensitivity and whether they are enabled",
           "the order of compiled rules, which depends on the history"]
