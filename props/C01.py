"""C01: parsing a compiled expansion gives back an expansion of the same meaning."""
import jsgf
from jsgf import parse_expansion_string
from props.gen import Gen, WORD, words, word1
from props.refparse import nf_of, nf_eq, show


def bare(e):
    return type(e) is jsgf.Sequence and not e.tag


def flat(e):
    """The items of the text that e compiles to, bare sequences flattened."""
    out = []
    for c in e.children:
        out.extend(flat(c) if bare(c) and c.children else [c])
    return out


def is_word(e):
    return isinstance(e, jsgf.Literal) or \
        (type(e) is jsgf.Sequence and len(e.children) == 1 and
         isinstance(e.children[0], jsgf.Literal))


def expressible(e):
    """
    False if the notation that compilation is specified to produce cannot express
    e: a tag directly on a repeat, or a tagged literal directly after an untagged
    one (the tag would cover both).
    """
    if isinstance(e, jsgf.Repeat) and e.tag:
        return False
    if isinstance(e, jsgf.Sequence):
        xs = flat(e)
        for a, b in zip(xs, xs[1:]):
            if isinstance(a, jsgf.Literal) and not a.tag and is_word(b) and \
                    (b.tag or b.children and b.children[0].tag):
                return False
    return all(expressible(c) for c in e.children)


def roundtrip(h, e):
    if not expressible(e):
        return
    want = nf_of(e)
    text = e.compile()
    h.observe("text", text)
    got = nf_of(parse_expansion_string(text))
    h.observe("nf", show(got))
    h.check(nf_eq(h, want, got), "compiled text parses to a different expansion")
    h.check(text == e.compile(), "compiling again gives different text")
    h.reach("ok")


def shapes(budget, kids=3):
    def fn(h):
        g = Gen(h, budget, leaves=("lit", "ref", "null", "void"), kids=kids, empty=True)
        roundtrip(h, g.tree())
    return fn


def a_tag(g, name):
    h = g.h
    n = h.choose(3, name + ".tag")
    if n == 0:
        return None
    if n == 1:
        return h.string(name + ".tag1", 1, 1, WORD + "{}\\")
    return h.string(name + ".tag2", 1, 1, WORD + "{}\\") + h.pick(("", " "), name + ".sep") + \
        h.string(name + ".tag3", 1, 1, WORD + "{}\\")


def simple_tag(g, name):
    if g.h.bool(name + ".tag"):
        return g.h.string(name + ".tag1", 1, 1, WORD)


def tags_simple(budget):
    def fn(h):
        roundtrip(h, Gen(h, budget, leaves=("lit", "ref"), tag=simple_tag).tree())
    return fn


def tags_text(budget):
    def fn(h):
        roundtrip(h, Gen(h, budget, leaves=("lit", "ref", "null"), inner=("seq", "group", "alt", "opt"),
                         tag=a_tag).tree())
    return fn


def weights(budget, kids, tag=None):
    def fn(h):
        used = []

        def text(g, name):
            w = word1(g, name)
            for x in used:
                h.assume(w != x)
            used.append(w)
            return w
        g = Gen(h, budget, kids=kids, text=text, tag=tag,
                inner=("alt", "seq", "opt", "rep"))
        e = g.tree()
        some = False
        for i, a in enumerate(g.alts):
            if len(a.children) > 1 and h.bool("w%d" % i):
                some = True
                for j in range(len(a.children)):
                    a.set_weight(j, h.decimal("w%d.%d" % (i, j), 1, 2))
        if some:
            roundtrip(h, e)
    return fn


def literal_text(n):
    def fn(h):
        """One literal of up to n characters and spaces."""
        s = h.string("s", 1, n, WORD + "  ", first=WORD)
        h.assume(s[-1] != " ")
        for i in range(len(s) - 1):
            h.assume(h.not_(h.and_(s[i] == " ", s[i + 1] == " ")))
        e = jsgf.Literal(s)
        if h.bool("tag"):
            e.tag = "t"
        roundtrip(h, e)
    return fn


def upper(h):
    """A literal is compiled in lower case unless it is case sensitive."""
    s = h.string("s", 1, 3)
    for i in range(len(s)):
        h.assume(h.charpred(s[i], ("C01", "alnum"), lambda c: c.isalnum()))
    cs = h.bool("cs")
    e = jsgf.Literal(s, case_sensitive=cs)
    text = e.compile()
    h.observe("text", text)
    h.check(text == (s if cs else s.lower()), "literal compiled to other text")
    got = parse_expansion_string(text)
    h.check(isinstance(got, jsgf.Literal), "compiled literal does not parse to a literal")
    h.check(got.text == s.lower(), "literal text changed")
    h.reach("ok")


R = ("ok",)
B = ("quick", "thorough")
HARNESSES = [
    dict(name="shapes4", fn=shapes(4), tiers=("quick",), reach=R,
         bounds="every expansion of at most 4 nodes (literals, references, <NULL>, <VOID>, sequences, groups, alternatives, optionals, repeats, childless ones included), names and words of 1 symbolic character"),
    dict(name="shapes5", fn=shapes(5), tiers=("thorough",), reach=R,
         bounds="as shapes4 with at most 5 nodes"),
    dict(name="wide", fn=shapes("wide"), tiers=B, reach=R, bounds="sequences, groups and sets of 4 or 6 children, any one of them within another expansion"),
    dict(name="deep", fn=shapes("deep"), tiers=B, reach=R, bounds="five expansions within each other, of two kinds in turn"),
    dict(name="wide-tags", fn=tags_simple("wide4"), tiers=("quick",), reach=R, bounds="sequences, groups and sets of 4 children, any one of them within another expansion, optional tags on every node"),
    dict(name="wide-tags6", fn=tags_simple("wide"), tiers=("thorough",), reach=R, bounds="as wide with optional tags on every node"),
    dict(name="tags3", fn=tags_simple(3), tiers=("quick",), reach=R,
         bounds="every expansion of at most 3 nodes with an optional tag on every node"),
    dict(name="tags4", fn=tags_simple(4), tiers=("thorough",), reach=R,
         bounds="as tags3 with at most 4 nodes"),
    dict(name="tagtext2", fn=tags_text(2), tiers=("quick",), reach=R,
         bounds="expansions of at most 2 nodes, tags of 1-2 symbolic characters (word characters, braces, backslashes), with and without a space"),
    dict(name="tagtext3", fn=tags_text(3), tiers=("thorough",), reach=R,
         bounds="as tagtext2 with at most 3 nodes"),
    dict(name="weights5", fn=weights(5, 3), tiers=("quick",), reach=R,
         bounds="expansions of at most 5 nodes with alternatives weighted by symbolic decimals d.dd, distinct words"),
    dict(name="weights6", fn=weights(6, 3), tiers=("thorough",), reach=R,
         bounds="as weights5 with at most 6 nodes"),
    dict(name="wtags4", fn=weights(4, 2, simple_tag), tiers=("quick",), reach=R,
         bounds="expansions of at most 4 nodes with weights and tags"),
    dict(name="wtags5", fn=weights(5, 3, simple_tag), tiers=("thorough",), reach=R,
         bounds="expansions of at most 5 nodes with weights and tags"),
    dict(name="text5", fn=literal_text(5), reach=R,
         bounds="one literal of 1..5 word characters and single spaces"),
    dict(name="upper", fn=upper, universe="latin", reach=R,
         bounds="one literal of 1..3 alphanumeric characters of Latin-1"),
]
OUTSIDE = [
    "literal and tag text with characters the parser's notation does not have (punctuation other than ' - _)",
    "tags directly on repeats and on a literal that follows an untagged literal (the pinned notation cannot express them)",
    "weights of single or equal alternatives, weights with more than 4 decimals",
]
