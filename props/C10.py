"""C10: a repeat keeps the match data of each of its repetitions."""
import jsgf
from symex.alph import LOWER
from props.gen import Gen, clone
from props.matchref import speech_words, nodes, falsy, postorder, matched_nodes, repetition_texts


def word(g, name):
    return g.h.string(name, 1, 1, LOWER)


def shifted(s, by):
    return None if s is None or s.start == s.stop else slice(s.start + by, s.stop + by)


def norm(m):
    return None if falsy(m) else m


def norm_slice(s):
    return None if s is None or s.start == s.stop else s


def verify(h, e, speech):
    """e is a matched repeat without repetition ancestors."""
    starts = [s.start for s in e.get_expansion_slices(e.child)]
    texts = repetition_texts(e, speech)
    h.check(len(texts) == e.repetitions_matched, "not one slice per repetition")
    mine = list(nodes(e.child))
    last = None
    for i in range(len(texts)):
        c = clone(e.child)
        rest = c.matches(texts[i])
        h.check(len(rest) == 0 and not falsy(c.current_match), "a repetition does not match on its own")
        other = list(nodes(c))
        for x, y in zip(mine, other):
            ms, ss = e.get_expansion_matches(x), e.get_expansion_slices(x)
            h.check(len(ms) == len(texts) and len(ss) == len(texts), "not one value per repetition")
            h.check(norm(ms[i]) == norm(y.current_match), "wrong match of a part in a repetition")
            h.check(norm_slice(ss[i]) == shifted(y.matching_slice, starts[i]),
                    "wrong slice of a part in a repetition")
        last = other
    if last is not None:
        for x, y in zip(mine, last):
            h.check(norm(x.current_match) == norm(y.current_match),
                    "the current match is not that of the last repetition")
            h.check(norm_slice(x.matching_slice) == shifted(y.matching_slice, starts[-1]),
                    "the slice is not that of the last repetition")
            if isinstance(x, jsgf.Repeat):
                h.check(x.repetitions_matched == y.repetitions_matched,
                        "an inner repeat does not have the repetitions of the last repetition")
                for a, b in zip(nodes(x.child), nodes(y.child)):
                    h.check([norm(m) for m in x.get_expansion_matches(a)] ==
                            [norm(m) for m in y.get_expansion_matches(b)],
                            "an inner repeat does not have the data of the last repetition")
    h.reach("one" if len(texts) == 1 else "many")


def tops(e):
    if isinstance(e, jsgf.Repeat):
        yield e
    elif isinstance(e, jsgf.NamedRuleRef):
        for x in tops(e.referenced_rule.expansion):
            yield x
    else:
        for c in e.children:
            for x in tops(c):
                yield x


def check_rule(h, rule, s):
    got = rule.matches(s)
    h.observe("matched", got)
    for x in nodes(rule.expansion):
        if isinstance(x, jsgf.Repeat):
            h.observe("reps", x.repetitions_matched)
            for y in nodes(x.child):
                h.observe("data", [x.get_expansion_matches(y), x.get_expansion_slices(y)])
    if not got:
        h.reach("rejected")
        return
    for e in tops(rule.expansion):
        verify(h, e, s)
    want = matched_nodes(rule.expansion, s)
    outside = own(rule.expansion)
    for x, y in zip(postorder(rule.expansion), want):
        if any(x is o for o in outside):
            h.check(x.had_match == y, "had_match is wrong")


def own(e, repeated=False):
    """The nodes that are not below a reference below a repeat."""
    out = [e]
    if isinstance(e, jsgf.NamedRuleRef):
        if not repeated:
            out += own(e.referenced_rule.expansion)
    else:
        for c in e.children:
            out += own(c, repeated or isinstance(e, jsgf.Repeat))
    return out


def trees(budget, nwords, leaves=("lit",), inner=("seq", "alt", "opt", "rep", "star"), kids=3,
          wrap=True, text=word, again=False, share=False):
    def fn(h):
        shared = []

        def ref(g, name):
            if share and shared and h.bool(name + ".share"):
                return jsgf.RuleRef(shared[0])
            sub = g.tree() if g.left > 0 else jsgf.Literal(word(g, name))
            shared.append(jsgf.PrivateRule("x" + name, sub))
            return jsgf.RuleRef(shared[-1])
        g = Gen(h, budget, leaves=leaves, inner=inner, kids=kids, text=text, ref=ref)
        e = h.pick((jsgf.Repeat, jsgf.KleeneStar), "top")(g.tree()) if wrap else g.tree()
        rule = jsgf.PublicRule("r", e)
        if again:
            rule.matches(" ".join(speech_words(h, 1 + h.choose(2, "words0"), LOWER, "p")))
        words = speech_words(h, 1 + h.choose(nwords, "words"), LOWER)
        check_rule(h, rule, " ".join(words))
    return fn


def equal_parts(g, name):
    """Words out of two, so that parts are often equal."""
    return "a" if g.h.bool(name) else "b"


def other(h):
    """Data of expansions that are not part of the repeat."""
    r = jsgf.Repeat(jsgf.Literal(h.string("a", 1, 1, LOWER)))
    x = jsgf.Literal(h.string("b", 1, 1, LOWER))
    rule = jsgf.PublicRule("r", jsgf.Sequence(r, x))
    s = " ".join(speech_words(h, 2 + h.choose(2, "words"), LOWER))
    got = rule.matches(s)
    h.observe("matched", got)
    for e in (x, jsgf.Literal(r.child.text), rule.expansion):
        h.check(len(r.get_expansion_matches(e)) == 0 and len(r.get_expansion_slices(e)) == 0,
                "data for an expansion outside of the repeat")
    h.reach("matched" if got else "rejected")


R = ("one", "many", "rejected")
Q, T, B = ("quick",), ("thorough",), ("quick", "thorough")
HARNESSES = [
    dict(name="trees3", fn=trees(3, 3), tiers=Q, reach=R,
         bounds="a repeat or Kleene star of every tree of at most 3 nodes (literals of one symbolic letter, "
                "sequences, alternatives, optionals, repeats, stars), up to 3 symbolic words"),
    dict(name="wide", fn=trees("wide", 3), tiers=Q, reach=R, bounds="sequences, groups and sets of 4 or 6 children, any one of them within another expansion, speech of up to 3 words"),
    dict(name="wide4", fn=trees("wide", 4), tiers=T, reach=R, bounds="sequences, groups and sets of 4 or 6 children, any one of them within another expansion, speech of up to 4 words"),
    dict(name="deep", fn=trees("deep", 3), tiers=Q, reach=R, bounds="five expansions within each other, of two kinds in turn, speech of up to 3 words"),
    dict(name="deep4", fn=trees("deep", 4), tiers=T, reach=R, bounds="five expansions within each other, of two kinds in turn, speech of up to 4 words"),
    dict(name="trees4", fn=trees(4, 4), tiers=T, reach=R,
         bounds="as trees3 with at most 4 nodes and 4 words"),
    dict(name="trees5", fn=trees(5, 3), tiers=T, reach=R, bounds="as trees3 with at most 5 nodes"),
    dict(name="words4", fn=trees(4, 4, text=equal_parts, inner=("seq", "alt", "opt", "rep")), tiers=Q, reach=R,
         bounds="a repeat or star of every tree of at most 4 nodes whose words are a or b (equal parts), "
                "up to 4 symbolic words"),
    dict(name="inside4", fn=trees(4, 3, wrap=False, again=True), tiers=Q, reach=R,
         bounds="every tree of at most 4 nodes, matched after another match"),
    dict(name="inside5", fn=trees(5, 3, wrap=False, again=True), tiers=T, reach=R,
         bounds="every tree of at most 5 nodes, matched after another match"),
    dict(name="refs4", fn=trees(4, 3, leaves=("lit", "ref"), inner=("seq", "alt", "rep")), tiers=Q, reach=R,
         bounds="a repeat or star of every tree of at most 4 nodes with references to other rules, "
                "up to 3 words"),
    dict(name="refs5", fn=trees(5, 3, leaves=("lit", "ref"), inner=("seq", "alt", "rep", "opt")), tiers=T,
         reach=R, bounds="as refs4 with 5 nodes and optionals"),
    dict(name="other", fn=other, tiers=B, reach=("matched", "rejected"),
         bounds="a repeat followed by a word; expansions outside of the repeat, equal ones included"),
]
OUTSIDE = ["had_match of the parts of rules that are referenced below a repeat (see C11)"]
