"""C03: parsing follows the JSGF precedence rules and fails only as documented."""
from pyparsing import ParseException
import jsgf
from jsgf import GrammarError, parse_expansion_string
from props.gen import Gen, WORD, word1
from props.refparse import ref_parse, Reject, Outside, nf_of, nf_eq, show

ALPHABET = "ab1 |()[]<>/+*{}"


def has_equal_weighted(h, x):
    """Whether x has equal alternatives with a weight on at least one of them."""
    k = x[0]
    if k == "alt":
        ys = [y for _, y in x[1]]
        if any(w is not None for w, _ in x[1]):
            for i in range(len(ys)):
                for j in range(i):
                    if nf_eq(h, strip(ys[i]), strip(ys[j])):
                        return True
    elif k == "seq":
        ys = x[1]
    elif k in ("opt", "rep", "star"):
        ys = [x[1]]
    else:
        ys = []
    return any(has_equal_weighted(h, y) for y in ys)


def strip(x):
    """x without its own tags (which do not count for equality)."""
    return (x[0], x[1], ())


def chars(h, n, alphabet):
    s = h.string("s", 0, n, alphabet)
    try:
        want = ref_parse(h, s)
        if has_equal_weighted(h, want):
            raise Outside("equal alternatives with weights")
    except Reject:
        want = None
    except Outside:
        want = "outside"
    try:
        e = parse_expansion_string(s)
        got = nf_of(e)
        err = None
    except (ParseException, GrammarError) as x:
        got, err = None, type(x).__name__
    h.observe("err", err)
    if want == "outside":
        return
    if want is None:
        h.check(got is None, "accepted something that is not a JSGF expansion")
        h.reach("reject")
    else:
        h.check(got is not None, "rejected a JSGF expansion")
        h.observe("nf", show(got))
        h.check(nf_eq(h, want, got), "parsed to a different expansion")
        h.reach("accept")


def alphabet(n, chs):
    def fn(h):
        chars(h, n, chs)
    return fn


SMALL = "a |()[]+*"
TAGS = "a b{}\\+("
WEIGHTS = "ab1./| <>"
COMMENTS = "a/*\n |"


# ---- rendering with the parentheses that precedence requires only ------------
ALT, SEQ, UNARY, TAGGED = range(4)


def render(h, e, level, sp):
    """Notation of e where the context binds at least as tightly as level."""
    tagged = bool(e.tag)
    if isinstance(e, jsgf.Literal):
        s, own = e.text, UNARY
    elif isinstance(e, jsgf.NamedRuleRef):
        s, own = "<" + e.name + ">", UNARY
    elif isinstance(e, jsgf.OptionalGrouping):
        s, own = "[" + render(h, e.child, ALT, sp) + "]", UNARY
    elif isinstance(e, jsgf.Repeat):
        op = "*" if isinstance(e, jsgf.KleeneStar) else "+"
        s, own = render(h, e.child, TAGGED, sp) + op, SEQ
        if tagged or level >= UNARY:
            s, own = "(" + s + ")", UNARY
    elif isinstance(e, jsgf.AlternativeSet):
        if len(e.children) == 1:
            s, own = render(h, e.children[0], TAGGED if tagged else level, sp), TAGGED
        else:
            xs = []
            for c in e.children:
                x = render(h, c, SEQ, sp)
                if e.weights:
                    w = [v for k, v in e.weights.items() if k is c][0]
                    x = "/" + "%.2f" % w + "/" + sp + x
                xs.append(x)
            s, own = (sp + "|" + sp).join(xs), ALT
            if tagged or level > ALT:
                s, own = "(" + s + ")", UNARY
    else:
        if len(e.children) == 1:
            s, own = render(h, e.children[0], TAGGED if tagged else level, sp), TAGGED
        else:
            xs = []
            for i, c in enumerate(e.children):
                x = render(h, c, SEQ, sp)
                # Words next to each other are one literal, which takes the
                # operators that follow it: separate them.
                if i and not h.isin(x[0], "([<"):
                    x = "(" + render(h, c, ALT, sp) + ")"
                xs.append(x)
            s, own = " ".join(xs), SEQ
            if tagged or level > SEQ:
                s, own = "(" + s + ")", UNARY
    if tagged:
        s += sp + "{" + sp + e.tag + sp + "}"
    return s


def tree_tag(g, name):
    if g.h.bool(name + ".tag"):
        return g.h.string(name + ".tag1", 1, 1, WORD)


def trees(budget, tags=False, weighted=False, kids=3, **kw):
    def fn(h):
        used = []

        def text(g, name):
            w = word1(g, name)
            for x in used:
                h.assume(w != x)
            used.append(w)
            return w
        g = Gen(h, budget, kids=kids, tag=tree_tag if tags else None,
                text=text if weighted else word1, **kw)
        e = g.tree()
        if weighted:
            some = False
            for i, a in enumerate(g.alts):
                if len(a.children) > 1 and h.bool("w%d" % i):
                    some = True
                    for j in range(len(a.children)):
                        a.set_weight(j, h.decimal("w%d.%d" % (i, j), 1, 2))
            if not some:
                return
        want = nf_of(e)
        s = render(h, e, ALT, h.pick(("", " "), "sp"))
        h.observe("text", s)
        got = nf_of(parse_expansion_string(s))
        h.observe("nf", show(got))
        h.check(nf_eq(h, want, got), "parsed to a different expansion")
        h.reach("ok")
    return fn


AR = ("accept", "reject")
HARNESSES = [
    dict(name="chars5", fn=alphabet(5, ALPHABET), tiers=("quick",), reach=AR,
         bounds="every string of 0..5 characters over %r" % ALPHABET),
    dict(name="chars6", fn=alphabet(6, ALPHABET), tiers=("thorough",), reach=AR,
         bounds="every string of 0..6 characters over %r" % ALPHABET),
    dict(name="small6", fn=alphabet(6, SMALL), tiers=("quick",), reach=AR,
         bounds="every string of 0..6 characters over %r" % SMALL),
    dict(name="small8", fn=alphabet(8, SMALL), tiers=("thorough",), reach=AR,
         bounds="every string of 0..8 characters over %r" % SMALL),
    dict(name="tags6", fn=alphabet(6, TAGS), tiers=("quick",), reach=AR,
         bounds="every string of 0..6 characters over %r" % TAGS),
    dict(name="tags7", fn=alphabet(7, TAGS), tiers=("thorough",), reach=AR,
         bounds="every string of 0..7 characters over %r" % TAGS),
    dict(name="weights6", fn=alphabet(6, WEIGHTS), tiers=("quick",), reach=AR,
         bounds="every string of 0..6 characters over %r" % WEIGHTS),
    dict(name="weights7", fn=alphabet(7, WEIGHTS), tiers=("thorough",), reach=AR,
         bounds="every string of 0..7 characters over %r" % WEIGHTS),
    dict(name="comments5", fn=alphabet(5, COMMENTS), tiers=("quick",), reach=AR,
         bounds="every string of 0..5 characters over %r" % COMMENTS),
    dict(name="comments6", fn=alphabet(6, COMMENTS), tiers=("thorough",), reach=AR,
         bounds="every string of 0..6 characters over %r" % COMMENTS),
    dict(name="trees5", fn=trees(5, leaves=("lit", "ref")), tiers=("quick",), reach=("ok",),
         bounds="the notation, with the fewest parentheses, of every expansion of at most 5 nodes"),
    dict(name="trees6", fn=trees(6, leaves=("lit",)), tiers=("thorough",), reach=("ok",),
         bounds="as trees5 with at most 6 nodes"),
    dict(name="tagtrees3", fn=trees(3, tags=True), tiers=("quick",), reach=("ok",),
         bounds="as trees5 with at most 3 nodes and a tag on any node"),
    dict(name="tagtrees4", fn=trees(4, tags=True), tiers=("thorough",), reach=("ok",),
         bounds="as trees5 with at most 4 nodes and a tag on any node"),
    dict(name="wtrees5", fn=trees(5, weighted=True, inner=("seq", "alt", "rep")), tiers=("quick",),
         reach=("ok",),
         bounds="as trees5 with weighted alternatives (symbolic weights d.dd, distinct words)"),
    dict(name="wtrees6", fn=trees(6, weighted=True, inner=("seq", "alt", "opt", "rep")),
         tiers=("thorough",), reach=("ok",),
         bounds="as wtrees5 with at most 6 nodes"),
    dict(name="wtagtrees4", fn=trees(4, weighted=True, tags=True), tiers=("quick",), reach=("ok",),
         bounds="as trees5 with at most 4 nodes, weighted alternatives and tags"),
]
OUTSIDE = ["number formats other than digits with an optional point",
           "repeat operators applied to a repeat without parentheses",
           "weights on equal alternatives"]
