"""C22: sequence rules match the parts of their sequence in order, each once."""
import jsgf
from jsgf.ext import Dictation, SequenceRule
from jsgf.ext.expansions import calculate_expansion_sequence, expand_dictation_expansion
from props.C21 import D, ExtGen, everything, has_dictation, linked, nodes, only_dictation, same_tree, twin, words

LETTERS = "abc"


def split(token_texts):
    """Tokens of a part as words."""
    out = []
    for t in token_texts:
        out += [D] if t is D else t.split(" ")
    return out


def accepts(h, part, speech):
    """The part matches exactly these words, as a condition."""
    if only_dictation(part):
        return len(speech) > 0
    alts = []
    for w in words(h, part, max(1, len(speech))):
        if len(w) == len(speech):
            alts.append(h.and_(*[x == y for x, y in zip(w, speech)]))
    return h.or_(*alts)


def dictations(e):
    return [x for x in everything(e) if isinstance(x, Dictation)]


def root_repeat(e):
    """Whether everything is in one repeat."""
    while True:
        if isinstance(e, jsgf.Repeat) and not isinstance(e, jsgf.KleeneStar):
            return True
        if isinstance(e, (jsgf.OptionalGrouping, jsgf.KleeneStar)) or len(e.children) != 1:
            return False
        e = e.children[0]


def without_root_repeat(e):
    if isinstance(e, jsgf.Repeat):
        return twin(e.child)
    out = type(e)(without_root_repeat(e.children[0]))
    out.tag = e.tag
    return out


def speak(h, name, most):
    return [h.string("%s.w%d" % (name, i), 1, 1, LETTERS) for i in range(h.choose(most + 1, name + ".n"))]


OPS = ("match", "next", "restart", "allow", "refuse")


def any_tree(budget, inner, kids=3):
    def make(h, text):
        return ExtGen(h, budget, leaves=("lit", "dict"), inner=inner, kids=kids, text=text).tree()
    return make


def fixed_tree(h, text):
    S, L, R, O, A = jsgf.Sequence, jsgf.Literal, jsgf.Repeat, jsgf.OptionalGrouping, jsgf.AlternativeSet
    return h.pick((
        lambda: Dictation(),
        lambda: A(L(text(None, "a")), L(text(None, "b"))),
        lambda: S(L(text(None, "a")), Dictation()),
        lambda: S(Dictation(), L(text(None, "a"))),
        lambda: S(Dictation(), Dictation()),
        lambda: R(S(L(text(None, "a")), Dictation())),
        lambda: S(L(text(None, "a")), Dictation(), S(L(text(None, "b")), R(L(text(None, "c")))), Dictation()),
    ), "tree")()


def chain(depth):
    """Repeats and others at any depth of a tree whose expansions may have siblings."""
    def make(h, text):
        S, R, G = jsgf.Sequence, jsgf.Repeat, jsgf.RequiredGrouping
        e = S(jsgf.Literal(text(None, "a")), Dictation()) if h.bool("words") else Dictation()
        for i in range(depth):
            how = h.choose(5, "wrap%d" % i)
            if how == 0:
                e = R(e)
            elif how == 1:
                e = S(e)
            elif how == 2:
                e = G(e)
            elif how == 3:
                e = S(e, jsgf.Literal(text(None, "b%d" % i)))
            else:
                e = S(jsgf.Literal(text(None, "c%d" % i)), e)
        return e
    return make


def machine(tree, script, most):
    """script: the operations to choose from, for each step."""
    def fn(h):
        used = []

        def text(g, n):
            t = h.string(n, 1, 1, LETTERS)
            for u in used:
                h.assume(t != u)
            used.append(t)
            return t
        e = tree(h, text)
        before = twin(e)
        repeats = root_repeat(e)
        plain = without_root_repeat(e) if repeats else twin(e)
        expanded = expand_dictation_expansion(plain)
        visible = h.bool("visible")
        if not (len(expanded) == 1 and expanded[0] == plain):
            try:
                SequenceRule("n", visible, e)
            except jsgf.GrammarError:
                h.check(same_tree(e, before) and e.parent is None, "a refused expansion was changed")
                h.reach("refused")
            else:
                h.fail("a sequence rule was made from an expansion that is not expanded")
            return
        rule = SequenceRule("n", visible, e)
        parts = calculate_expansion_sequence(plain)
        seq = rule.expansion_sequence
        h.check(rule.can_repeat == repeats, "wrong can_repeat")
        h.check(len(seq) == len(parts) and h.and_(*[x == y for x, y in zip(seq, parts)]), "wrong sequence")
        h.check(rule.original_expansion is e, "the original expansion is another one")
        # Speech for dictation differs from other words if it would be ambiguous.
        ambiguous = any(isinstance(x, jsgf.Repeat) for x in everything(plain))
        index, refuse = 0, False
        matched = [None] * len(parts)
        done = None
        spoken = []
        for i, ops in enumerate(script):
            h.check(rule.expansion is seq[index], "the expansion is not the current one of the sequence")
            h.check(rule.refuse_matches == refuse, "wrong refuse_matches")
            h.check(rule.has_next_expansion == (index + 1 < len(parts)), "wrong has_next_expansion")
            h.check(rule.current_is_dictation_only == only_dictation(parts[index]), "wrong current_is_dictation_only")
            if refuse or only_dictation(parts[index]):
                h.check(rule.compile() == "", "compiled what cannot be matched")
            else:
                h.check(rule.compile() == ("public " if visible else "") + "<n> = " + parts[index].compile() + ";",
                        "compiled something other than the current expansion")
            if any(x.is_optional for x in seq):
                # Unmatched optional expansions match nothing.
                pass
            elif all(m is not None for m in matched):
                h.check(rule.entire_match == " ".join(matched), "wrong entire_match")
                h.reach("entire")
            else:
                h.check(rule.entire_match is None, "an entire match without all matches")
            for x, m in zip(seq, matched):
                if m is None and x.is_optional:
                    continue
                if m is not None and has_dictation(x) and not any(isinstance(y, jsgf.Repeat) for y in nodes(x)):
                    h.check(dictations(x)[0].current_match == m, "wrong match of dictation")
                h.check((x.current_match is None) if m is None else (x.current_match == m), "wrong match of a part of the sequence")
            if done is not None:
                h.check(e.current_match == done[0], "the match was not set for the original expansion")
                for d, m in zip(dictations(e), done[1]):
                    h.check(d.current_match == m, "the match was not set for the original dictation")
            op = h.pick(ops, "op%d" % i)
            if op == "match":
                speech = speak(h, "s%d" % i, most)
                if ambiguous and only_dictation(parts[index]):
                    for w in speech:
                        for u in used + spoken:
                            h.assume(w != u)
                    spoken += speech
                result = rule.matches(" ".join(speech))
                h.observe("matches", result)
                if refuse:
                    h.check(result is False, "matched while refusing")
                    h.reach("refusing")
                else:
                    want = accepts(h, parts[index], speech)
                    # Whether rules match speech without words is not specified.
                    h.check(h.implies(result, want), "matches what the current expansion does not")
                    if speech:
                        h.check(h.implies(want, result), "does not match what the current expansion does")
                    if result:
                        matched[index] = " ".join(speech)
                        h.reach("matched")
                    else:
                        matched[index] = None
                        h.reach("not matched")
                    done = None
                    if all(m is not None for m in matched) and any(matched):
                        done = (" ".join(matched), [x.current_match for y in seq for x in dictations(y)])
                    refuse = True
            elif op == "next":
                rule.set_next()
                if index + 1 < len(parts):
                    index += 1
                    refuse = False
                    h.reach("next")
            elif op == "restart":
                rule.restart_sequence()
                index, refuse = 0, False
                matched = [None] * len(parts)
            else:
                refuse = op == "refuse"
                rule.refuse_matches = refuse
        h.check(same_tree(e, before) and linked(e), "the original expansion was changed")
        h.check(rule.expansion_sequence is seq and all(same_tree(x, y) for x, y in zip(seq, parts)), "the sequence was changed")
    return fn


def twin_case(e, cs):
    out = twin(e)
    for x in everything(out):
        if isinstance(x, jsgf.Literal) and not isinstance(x, Dictation):
            x.case_sensitive = cs
    return out


def case(steps):
    """Case sensitivity is that of the rule, whenever it is set."""
    def fn(h):
        S, L = jsgf.Sequence, jsgf.Literal
        a, b = h.string("a", 1, 1, "aAbB"), h.string("b", 1, 1, "aAbB")
        e = h.pick((lambda: S(L(a), Dictation(), L(b)), lambda: S(Dictation(), L(b)), lambda: S(L(a), Dictation()),
                    lambda: jsgf.Repeat(S(L(a), Dictation(), jsgf.RequiredGrouping(L(b))))), "tree")()
        cs = h.bool("cs")
        rule = SequenceRule("n", True, e, case_sensitive=cs)
        parts = rule.expansion_sequence
        for i in range(steps):
            op = h.pick(("set", "next", "restart"), "op%d" % i)
            if op == "set":
                cs = h.bool("cs%d" % i)
                rule.case_sensitive = cs
            elif op == "next":
                rule.set_next()
            else:
                rule.restart_sequence()
        h.check(rule.case_sensitive == cs, "wrong case sensitivity")
        h.check(rule.original_expansion.compile() == twin_case(e, cs).compile(), "the original expansion has another case sensitivity")
        rule.restart_sequence()
        for i, x in enumerate(parts):
            h.check(x.compile() == twin_case(x, cs).compile(), "a part has another case sensitivity")
            if not has_dictation(x):
                w = h.string("w%d" % i, 1, 1, "aAbB")
                text = nodes(x)[-1]._text
                got = rule.matches(w)
                h.check(h.iff(got, w == text if cs else w.lower() == text.lower()), "a part is matched with another case sensitivity")
                h.reach("matched" if got else "rejected")
            rule.set_next()
    return fn


Q, T = ("quick",), ("thorough",)
B = Q + T
ALL = ("seq", "alt", "opt", "rep")
SCRIPT = (("match",), ("next", "restart"), ("match",), ("next",), ("match",), ("allow",))
R = ("matched", "not matched", "entire", "next")
HARNESSES = [
    dict(name="trees4", fn=machine(any_tree(4, ALL), SCRIPT, 2), tiers=B, reach=R + ("refused",),
         bounds="every tree of up to 4 nodes with different words of a letter; matching, going on (or starting again), matching, going on, matching; speech of up to 2 words each"),
    dict(name="histories4", fn=machine(fixed_tree, (OPS,) * 4 + (("match",), ("allow",)), 1), tiers=B, reach=R + ("refusing",),
         bounds="7 trees with sequences of 1 to 4 parts; every history of 4 operations and a match, speech of up to 1 word"),
    dict(name="chains4", fn=machine(chain(4), (("match",), ("next",), ("match",)), 1), tiers=Q, reach=("matched", "not matched", "entire", "next"),
         bounds="repeats, groups and sequences with or without siblings around each other to a depth of 4; matching, going on, matching, speech of up to 1 word"),
    dict(name="chains5", fn=machine(chain(5), (("match",), ("next",), ("match",)), 1), tiers=T, reach=("matched", "not matched", "entire", "next"), bounds="as chains4 to a depth of 5"),
    dict(name="case3", fn=case(3), tiers=B, reach=("matched", "rejected"), bounds="4 trees; 3 operations: setting the case sensitivity, going on, starting again"),
    dict(name="trees5", fn=machine(any_tree(5, ALL), SCRIPT, 2), tiers=T, reach=R + ("refused",), bounds="as trees4 with 5 nodes"),
    dict(name="histories5", fn=machine(fixed_tree, (OPS,) * 5 + (("match",), ("allow",)), 2), tiers=T, reach=R + ("refusing",),
         bounds="as histories4 with 5 operations and speech of up to 2 words"),
]
OUTSIDE = ["speech without words, which rules that can be nothing may match or not",
           "dictation next to repeats that is equal to other parts of the speech, which is ambiguous"]
