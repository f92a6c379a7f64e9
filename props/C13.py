"""C13: copies of expansions equal the original and are independent of it."""
import copy
import jsgf
from symex.alph import LOWER
from props.gen import Gen, clone
from props.matchref import speech_words, state, states_equal, nodes
from props import C09


def tree(h, budget, leaves, inner, tags, weights, kids=3, case=True):
    other = []

    def ref(g, name):
        r = jsgf.PrivateRule("x" + name, jsgf.Literal(g.h.string(name + ".x", 1, 1, LOWER)))
        other.append(r)
        return jsgf.RuleRef(r)

    def text(g, name):
        return g.h.string(name, 1, 1, LOWER + ("ABCDEFGHIJKLMNOPQRSTUVWXYZ" if case else ""))

    def tag(g, name):
        return g.h.string(name + ".tag", 1, 1, LOWER) if tagged else None
    tagged = tags and h.bool("tagged")
    cs = h.bool("cs") if case else False
    g = Gen(h, budget, leaves=leaves, inner=inner, text=text, tag=tag if tags else None, ref=ref, kids=kids)
    e = g.tree()
    if case:
        for x in nodes(e, refs=False):
            if isinstance(x, jsgf.Literal):
                x.case_sensitive = cs
                cs = not cs
    if weights:
        for a in g.alts:
            ks = a.children
            if len(ks) > 0 and h.bool("weighted"):
                for i in range(len(ks)):
                    for j in range(i):
                        h.assume(ks[i] != ks[j])
                for i in range(len(ks)):
                    a.set_weight(i, (2, 0, 1.5, 3, 0.25, 1)[i])
    return e, other


def describe(e):
    """What a copy has to preserve, node by node; symbolic text stays symbolic."""
    out = []
    for x in nodes(e, refs=False):
        out += [type(x), len(x.children), x.tag]
        if isinstance(x, jsgf.Literal):
            out += [x.text, x.case_sensitive]
        elif isinstance(x, jsgf.RuleRef):
            out.append(x.name)
        elif isinstance(x, jsgf.NamedRuleRef):
            out.append(x.name)
        elif isinstance(x, jsgf.AlternativeSet):
            out.append(len(x.weights))
            for c in x.children:
                out.append(x.weights.get(c) if x.weights else None)
    return out


def links(e):
    return [(id(x), id(x.parent)) for x in nodes(e, refs=False)]


COPIES = (lambda e: e.copy(), copy.deepcopy)


def check_copy(h, e, c):
    h.check(c is not e, "the copy is the original")
    h.check(type(c) is type(e), "the copy is of another class")
    d, d2 = describe(e), describe(c)
    h.observe("copy", d2)
    h.check(len(d) == len(d2), "the copy has another structure")
    for a, b in zip(d, d2):
        h.check(a == b, "the copy differs from the original")
    for x, y in zip(nodes(e, refs=False), nodes(c, refs=False)):
        if isinstance(x, jsgf.RuleRef):
            h.check(x.referenced_rule is y.referenced_rule, "the copy references another rule")
    old = [id(x) for x in nodes(e, refs=False)]
    for x in nodes(c, refs=False):
        h.check(id(x) not in old, "the copy shares a node with the original")
        for y in x.children:
            h.check(y.parent is x, "a node of the copy has another parent")
    h.check(c.parent is None, "the copy has a parent")


def structure(budget, leaves, inner, tags=True, weights=True, sub=True):
    def fn(h):
        e, _ = tree(h, budget, leaves, inner, tags, weights)
        xs = list(nodes(e, refs=False))
        x = h.pick(xs, "which") if sub else e
        if h.bool("matched"):
            for r in (e,):
                if not isinstance(r, jsgf.NamedRuleRef):
                    r.matches(h.string("p", 1, 1, LOWER))
        before = links(e)
        d0 = describe(e)
        text = e.compile()
        c = h.pick(COPIES, "how")(x)
        h.check(links(e) == before, "copying changed the links of the original")
        d1 = describe(e)
        h.check(len(d0) == len(d1) and all(a == b for a, b in zip(d0, d1)), "copying changed the original")
        h.check(e.compile() == text, "copying changed what the original compiles to")
        check_copy(h, x, c)
        h.check(c.compile() == x.compile(), "the copy compiles to something else")
        h.check(c == x and x == c, "the copy does not equal the original")
        h.reach("copied")
    return fn


def shallow(budget, leaves, inner):
    """A shallow copy has the same children, and its own tag, weights and list of children."""
    def fn(h):
        e, _ = tree(h, budget, leaves, inner, True, True)
        if h.bool("matched") and not isinstance(e, jsgf.NamedRuleRef):
            e.matches(h.string("p", 1, 1, LOWER))
        kids, tag, text = list(e.children), e.tag, e.compile()
        d = describe(e)
        weights = dict(e.weights) if isinstance(e, jsgf.AlternativeSet) else None
        c = copy.copy(e) if h.bool("how") else e.copy(shallow=True)
        h.check(c is not e and type(c) is type(e), "the copy is the original or of another class")
        d2 = describe(c)
        h.observe("copy", d2)
        h.check(len(d) == len(d2) and all(x == y for x, y in zip(d, d2)), "the copy differs from the original")
        h.check(len(c.children) == len(kids) and all(x is y for x, y in zip(c.children, kids)), "the copy has other children")
        h.check(all(x.parent is c for x in c.children) and c.parent is None, "a child of the copy has another parent")
        h.check(c.compile() == text and e.compile() == text, "the copy compiles to something else")
        h.check(c == e and e == c, "the copy does not equal the original")
        if isinstance(e, jsgf.RuleRef):
            h.check(c.referenced_rule is e.referenced_rule, "the copy references another rule")
        h.reach("copied")
        a, b = (e, c) if h.bool("edit.original") else (c, e)
        k = h.choose(3, "edit")
        if k == 0:
            a.tag = "other"
            h.check(b.tag == tag and b.compile() == text, "the tag of one is the tag of the other")
        elif k == 1 and weights:
            for i in range(len(kids)):
                a.set_weight(i, 7)
            h.check(len(b.weights) == len(weights) and all(b.weights[x] == weights[x] for x in kids) and b.compile() == text,
                    "changing the weights of one changed those of the other")
            h.reach("weights")
        elif k == 2 and kids and isinstance(e, C09_MANY):
            a.children.pop()
            h.check(len(b.children) == len(kids) and all(x is y for x, y in zip(b.children, kids)),
                    "changing the children of one changed those of the other")
            h.reach("children")
    return fn


C09_MANY = (jsgf.Sequence, jsgf.AlternativeSet)


def independent(budget, leaves, inner, nwords):
    """Editing or matching either leaves the other as it is."""
    def fn(h):
        e, _ = tree(h, budget, leaves, inner, False, True, case=False)
        r = jsgf.PublicRule("r", e)
        p = " ".join(speech_words(h, 1, LOWER, "p"))
        if h.bool("pre"):
            r.matches(p)
        c = e.copy()
        r2 = jsgf.PublicRule("r", c)
        if h.bool("match2"):
            r2.matches(p)
        a, b = (r, r2) if h.bool("edit.original") else (r2, r)
        keep = b.compile()
        d, s0, l0 = describe(b.expansion), state(b), links(b.expansion)
        if not h.pick(EDITS, "ed")(h, a, "ed"):
            return
        try:
            a.matches(p)
        except jsgf.GrammarError:  # weights are missing after the edit
            pass
        h.check(b.compile() == keep, "editing one changed what the other compiles to")
        d2 = describe(b.expansion)
        h.check(links(b.expansion) == l0 and len(d) == len(d2) and all(x == y for x, y in zip(d, d2)),
                "editing one changed the other")
        h.check(states_equal(s0, state(b)), "matching one changed the match data of the other")
        fresh = jsgf.PublicRule("r", clone(b.expansion))
        s = " ".join(speech_words(h, 1 + h.choose(nwords, "words"), LOWER))
        C09.compare(h, b, fresh, s)
    return fn


def ed_weight(h, r, n):
    e = C09.some(h, r, n, lambda x: isinstance(x, jsgf.AlternativeSet) and len(x.weights) > 0 and
                 len(x.children) > 0)
    if e is not None:
        e.set_weight(h.choose(len(e.children), n + ".i"), h.pick((0, 3), n + ".w"))
        return True


def ed_tag(h, r, n):
    e = C09.some(h, r, n, lambda x: not isinstance(x.parent, jsgf.AlternativeSet))
    if e is not None:
        e.tag = "t"
        return True


def ed_append(h, r, n):
    e = C09.some(h, r, n, C09.many)
    if e is not None:
        e.children.append("z")
        return True


def ed_set(h, r, n):
    e = C09.some(h, r, n, C09.parent)
    if e is not None:
        e.children[-1] = "z"
        return True


def ed_children(h, r, n):
    e = C09.some(h, r, n, C09.parent)
    if e is not None:
        e.children = ["z"]
        return True


EDITS = (ed_append, C09.ed_pop, ed_set, ed_children, C09.ed_clear, C09.ed_text, C09.ed_case, ed_weight, ed_tag)


def behaves(budget, leaves, inner, nwords):
    """The copy matches what the original matches, with the same match data."""
    def fn(h):
        e, _ = tree(h, budget, leaves, inner, False, False)
        c = h.pick(COPIES, "how")(e)
        r, r2 = jsgf.PublicRule("r", jsgf.Sequence(e)), jsgf.PublicRule("r", jsgf.Sequence(c))

        s = " ".join(speech_words(h, 1 + h.choose(nwords, "words"), LOWER + "AB"))
        got, want = r2.matches(s), None
        a = state(r2)
        want = r.matches(s)
        b = state(r)
        h.observe("got", got)
        h.check(got == want, "the copy matches other speech")
        h.check(states_equal(a, b), "the copy has other match data")
        h.reach("matched" if got else "rejected")
    return fn


def dictation(h):
    from jsgf.ext import Dictation
    d = Dictation()
    if h.bool("tagged"):
        d.tag = h.string("tag", 1, 2, LOWER)
    e = jsgf.Sequence(jsgf.Literal(h.string("a", 1, 1, LOWER)), d)
    x = h.pick((e, d), "which")
    c = h.pick(COPIES, "how")(x)
    check_copy(h, x, c)
    h.check(c.compile() == x.compile(), "the copy compiles to something else")
    h.check(x == c, "the copy does not equal the original")
    h.check(e.children[1] is d and d.parent is e, "copying changed the original")
    h.reach("copied")


Q, T, B = ("quick",), ("thorough",), ("quick", "thorough")
LV, INN = ("lit", "ref", "null", "void"), ("seq", "group", "alt", "opt", "rep", "star")
HARNESSES = [
    dict(name="structure", fn=structure(3, LV, INN), tiers=B, reach=("copied",),
         bounds="trees of at most 3 nodes of every kind (literals of one symbolic letter of either case with any "
                "case sensitivity, references by object, NULL, VOID), symbolic tags, weights 0, 1, 2; any node copied, before "
                "or after a match, by copy() or deepcopy()"),
    dict(name="shallow", fn=shallow(3, LV, INN), tiers=B, reach=("copied", "weights", "children"),
         bounds="such trees, the root copied by copy(shallow=True) or copy.copy, then the tag, the weights or the children of one changed"),
    dict(name="wide", fn=structure("wide4", LV, INN), tiers=Q, reach=("copied",), bounds="sequences, groups and sets of 4 children, any one of them within another expansion"),
    dict(name="wide6", fn=structure("wide", LV, INN), tiers=T, reach=("copied",), bounds="sequences, groups and sets of 4 or 6 children, any one of them within another expansion"),
    dict(name="deep", fn=structure("deep3", LV, INN), tiers=Q, reach=("copied",), bounds="three expansions within each other, of two kinds in turn"),
    dict(name="deep4", fn=structure("deep4", LV, INN), tiers=T, reach=("copied",), bounds="four expansions within each other, of two kinds in turn"),
    dict(name="structure4", fn=structure(4, ("lit", "ref"), ("seq", "alt", "opt", "star"), sub=False), tiers=T, reach=("copied",),
         bounds="as structure with 4 nodes, literals, references, sequences, sets, optionals and stars; the root copied"),
    dict(name="independent", fn=independent(3, ("lit",), ("seq", "alt", "opt", "rep"), 1), tiers=B,
         reach=("matched", "rejected"),
         bounds="trees of at most 3 nodes with weights; the original and/or the copy matched with a symbolic word, then "
                "one edit of any kind of either, after which the other is compared with its former self and matched "
                "with 1 symbolic word"),
    dict(name="independent4", fn=independent(4, ("lit",), ("seq", "alt", "opt", "rep"), 2), tiers=T,
         reach=("matched", "rejected"), bounds="as independent with 4 nodes and up to 2 words"),
    dict(name="behaves", fn=behaves(3, ("lit", "ref"), ("seq", "alt", "opt", "rep"), 2), tiers=B,
         reach=("matched", "rejected"),
         bounds="trees of at most 3 nodes matched with up to 2 symbolic words of either case"),
    dict(name="dictation", fn=dictation, tiers=B, reach=("copied",), bounds="a dictation, alone or in a sequence"),
]
OUTSIDE = ["matching with the original of a shallow copy (its children belong to the copy afterwards)",
           "copies of nodes whose only child was removed (the copy raises TypeError, as for a new node without child)",
           "copies of rules and grammars"]
