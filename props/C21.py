"""C21: expanding dictation preserves what can be spoken; sequences have the parts in order."""
import jsgf
from jsgf.ext import Dictation
from jsgf.ext.expansions import calculate_expansion_sequence, expand_dictation_expansion
from props.gen import Gen

D = ("dictation",)
LETTERS = "ab"


class ExtGen(Gen):
    def mk_dict(self, name):
        return Dictation()


def below(e):
    """Children, and the expansion of a referenced rule."""
    if isinstance(e, (jsgf.NullRef, jsgf.VoidRef)):
        return []
    return [e.referenced_rule.expansion] if isinstance(e, jsgf.NamedRuleRef) else list(e.children)


def twin(e):
    """An equal tree, built with constructors."""
    if isinstance(e, Dictation):
        out = Dictation()
    elif isinstance(e, jsgf.RuleRef):
        out = jsgf.RuleRef(e.referenced_rule)
    elif isinstance(e, jsgf.Literal):
        out = jsgf.Literal(e.text, e.case_sensitive)
    else:
        out = type(e)(*[twin(c) for c in e.children])
    out.tag = e.tag
    return out


def words(h, e, reps):
    """All sequences of tokens of e with up to `reps` repetitions: tuples of D and texts."""
    if isinstance(e, Dictation):
        return [(D,)]
    if isinstance(e, jsgf.Literal):
        return [(e.text,)]
    if isinstance(e, jsgf.NullRef):
        return [()]
    if isinstance(e, jsgf.VoidRef):
        return []
    if isinstance(e, jsgf.NamedRuleRef):
        return words(h, e.referenced_rule.expansion, reps)
    kids = [words(h, c, reps) for c in e.children]
    if isinstance(e, jsgf.AlternativeSet):
        return dedupe([w for k in kids for w in k] if kids else [()])
    if isinstance(e, jsgf.OptionalGrouping):
        return dedupe([()] + kids[0])
    if isinstance(e, jsgf.Repeat):   # includes KleeneStar
        low = 0 if isinstance(e, jsgf.KleeneStar) else 1
        out, cur = [], [()]
        for i in range(reps + 1):
            if i >= low:
                out += cur
            cur = [a + b for a in cur for b in kids[0]]
        return dedupe(out)
    out = [()]
    for k in kids:
        out = [a + b for a in out for b in k]
    return dedupe(out)


def identical(a, b):
    return len(a) == len(b) and all((x is D) == (y is D) and (x is D or x is y) for x, y in zip(a, b))


def dedupe(ws):
    out = []
    for w in ws:
        if not any(identical(w, v) for v in out):
            out.append(w)
    return out


def contains(h, ws, w):
    """w is in ws, as a condition on the symbolic words."""
    alts = []
    for v in ws:
        if len(v) == len(w) and all((x is D) == (y is D) for x, y in zip(v, w)):
            alts.append(h.and_(*[x == y for x, y in zip(v, w) if x is not D]))
    return h.or_(*alts)


def choice_below_repeat(e, inside=False):
    if isinstance(e, jsgf.Repeat):
        inside = True
    if inside and isinstance(e, (jsgf.AlternativeSet, jsgf.OptionalGrouping, jsgf.KleeneStar)) and len(e.children) > 0:
        return True
    return any(choice_below_repeat(c, inside) for c in below(e))


def has_dictation(e):
    return isinstance(e, Dictation) or any(has_dictation(c) for c in below(e))


def only_dictation(e):
    if not below(e):
        return isinstance(e, Dictation)
    return all(only_dictation(c) for c in below(e))


def words_of_dictation(e):
    return 1 if isinstance(e, Dictation) else sum(words_of_dictation(c) for c in below(e))


def everything(e):
    return [e] + [x for c in below(e) for x in everything(c)]


def nodes(e):
    out = [e]
    for c in e.children:
        out += nodes(c)
    return out


def same_tree(a, b):
    """Same kinds, texts and tags."""
    return type(a) is type(b) and len(a.children) == len(b.children) and a.tag == b.tag and \
        (not isinstance(a, jsgf.Literal) or a.text == b.text) and \
        (not isinstance(a, jsgf.RuleRef) or a.referenced_rule is b.referenced_rule) and all(same_tree(x, y) for x, y in zip(a.children, b.children))


def linked(e):
    return all(c.parent is e and linked(c) for c in e.children)


def make(h, budget, inner, kids, refs):
    rules = []

    def ref(g, name):
        r = jsgf.PrivateRule("x" + name, g.tree() if g.left > 0 else jsgf.Literal("z"))
        rules.append((r, twin(r.expansion)))
        return jsgf.RuleRef(r)
    g = ExtGen(h, budget, leaves=("lit", "dict", "ref") if refs else ("lit", "dict"), inner=inner, kids=kids, ref=ref,
               text=lambda g, n: g.h.string(n, 1, 1, LETTERS))
    e = g.tree()
    return e, twin(e), rules


def unchanged(h, e, before, rules, what):
    h.check(same_tree(e, before) and e.parent is None and linked(e), what + " changed it")
    for r, x in rules:
        h.check(same_tree(r.expansion, x) and linked(r.expansion), what + " changed a referenced rule")


def expand(budget, inner, kids=3, refs=False):
    def fn(h):
        e, before, rules = make(h, budget, inner, kids, refs)
        got = expand_dictation_expansion(e)
        h.observe("expanded", [x.compile() for x in got])
        unchanged(h, e, before, rules, "expanding an expansion")
        own = nodes(e)
        for i, x in enumerate(got):
            h.check(x.parent is None and linked(x), "an expanded expansion has wrong parents")
            if x is not e:
                h.check(not any(y is z for y in nodes(x) for z in own), "an expanded expansion shares parts with the original")
            h.check(not any(x == y for y in got[:i]), "an expanded expansion is in the list twice")
            again = expand_dictation_expansion(x)
            h.check(len(again) == 1 and again[0] == x, "an expanded expansion can be expanded further")
        mixed = choice_below_repeat(e)
        full = words(h, e, 2)
        once = words(h, e, 1) if mixed else full
        union = []
        for x in got:
            union += words(h, x, 2)
        for w in union:
            h.check(contains(h, full, w), "an expanded expansion matches what the original does not")
        for w in once:
            if len(w):
                h.check(contains(h, union, w), "the expanded expansions do not match what the original does")
        h.reach("several" if len(got) > 1 else "one")
    return fn


def sequence(budget, inner, kids=3, refs=False):
    """The parts of an expanded expansion, in order, are the expansion."""
    def fn(h):
        e, before, rules = make(h, budget, inner, kids, refs)
        if len(expand_dictation_expansion(e)) != 1 or not (expand_dictation_expansion(e)[0] == e):
            return
        seq = calculate_expansion_sequence(e)
        h.observe("sequence", [x.compile() for x in seq])
        unchanged(h, e, before, rules, "calculating the sequence of an expansion")
        own = nodes(e)
        for x in seq:
            h.check(only_dictation(x) or not has_dictation(x), "a part of the sequence has both dictation and other leaves")
            h.check(x.parent is None and linked(x), "a part of the sequence has wrong parents")
            h.check(not any(y is z for y in nodes(x) for z in own), "a part of the sequence shares parts with the original")
        h.check(sum(words_of_dictation(x) for x in seq) == words_of_dictation(e),
                "the sequence has another number of dictation expansions")
        for x, y in zip(seq, seq[1:]):
            h.check(has_dictation(x) or has_dictation(y), "the sequence splits what could be spoken at once")
        # Without repeats around parts, the sequence matches what the expansion does.
        if any(isinstance(x, jsgf.Repeat) and has_dictation(x) for x in everything(e)):
            h.reach("repeat")
            return
        full = words(h, e, 2)
        parts = [()]
        for x in seq:
            parts = [a + b for a in parts for b in words(h, x, 2)]
        for w in parts:
            h.check(contains(h, full, w), "the sequence matches what the expansion does not")
        for w in full:
            h.check(contains(h, parts, w), "the sequence does not match what the expansion does")
        h.reach("split" if len(seq) > 1 else "whole")
    return fn


Q, T = ("quick",), ("thorough",)
B = Q + T
ALL = ("seq", "alt", "opt", "rep", "star")
HARNESSES = [
    dict(name="expand5", fn=expand(5, ALL), tiers=B, reach=("one", "several"),
         bounds="all trees of up to 5 nodes with symbolic words of one letter; languages are compared with up to 2 repetitions"),
    dict(name="expand4-refs", fn=expand(4, ALL, refs=True), tiers=B, reach=("one", "several"), bounds="such trees of up to 4 nodes with references to rules"),
    dict(name="expand6", fn=expand(6, ALL), tiers=T, reach=("one", "several"), bounds="as expand5 with 6 nodes"),
    dict(name="expand5-refs", fn=expand(5, ALL, refs=True), tiers=T, reach=("one", "several"), bounds="as expand4-refs with 5 nodes"),
    dict(name="sequence5", fn=sequence(5, ALL), tiers=B, reach=("split", "whole", "repeat"), bounds="all such trees of up to 5 nodes that are expanded"),
    dict(name="sequence4-refs", fn=sequence(4, ALL, refs=True), tiers=B, reach=("split", "whole", "repeat"), bounds="such trees of up to 4 nodes with references to rules"),
    dict(name="sequence6", fn=sequence(6, ALL), tiers=T, reach=("split", "whole", "repeat"), bounds="as sequence5 with 6 nodes"),
    dict(name="sequence5-refs", fn=sequence(5, ALL, refs=True), tiers=T, reach=("split", "whole", "repeat"), bounds="as sequence4-refs with 5 nodes"),
]
OUTSIDE = ["weights and tags of what is expanded", "speech without any words",
           "repeats of choices: expansions of these repeat one choice only"]
