"""C16: traversals visit the tree in order; relations between expansions agree with the tree."""
import jsgf
from jsgf.expansions import (map_expansion, flat_map_expansion, filter_expansion, find_expansion,
                             TraversalOrder, JointTreeContext)
from jsgf import Expansion
from props.gen import Gen

PRE, POST = TraversalOrder.PreOrder, TraversalOrder.PostOrder


def visit(e, order, shallow):
    """Reference traversal."""
    out = []
    if isinstance(e, jsgf.NamedRuleRef):
        kids = [] if shallow else [e.referenced_rule.expansion]
    else:
        kids = list(e.children)
    if order == PRE:
        out.append(e)
    for c in kids:
        out += visit(c, order, shallow)
    if order == POST:
        out.append(e)
    return out


def same(xs, ys):
    xs, ys = list(xs), list(ys)
    return len(xs) == len(ys) and all(x is y for x, y in zip(xs, ys))


def flatten(t):
    """The results in the nested tuples of map_expansion."""
    out = []
    for x in t:
        if isinstance(x, tuple):
            out += flatten(x)
        else:
            out.append(x)
    return out


def make(h, budget, leaves=("lit", "ref"), inner=("seq", "alt", "opt", "rep", "star"), kids=3):
    rules = []
    grammar = jsgf.Grammar("g")

    def ref(g, name):
        sub = g.tree() if g.left > 0 else jsgf.Literal("z")
        r = jsgf.PrivateRule("x" + name, sub)
        rules.append(r)
        if named:
            grammar.add_rule(r)
            return jsgf.NamedRuleRef(r.name)
        return jsgf.RuleRef(r)
    named = "ref" in leaves and h.bool("named")
    g = Gen(h, budget, leaves=leaves, inner=inner, ref=ref, kids=kids, text=lambda g, n: "w")
    e = g.tree()
    r = jsgf.PublicRule("r", e)
    if named:
        grammar.add_rule(r)
    return e, rules


def traversals(budget):
    def fn(h):
        e, _ = make(h, budget, inner=("seq", "alt", "opt"))
        order = h.pick((PRE, POST), "order")
        shallow = h.bool("shallow")
        want = visit(e, order, shallow)
        h.check(same(flatten(map_expansion(e, order=order, shallow=shallow)), want),
                "map_expansion does not visit the expansions in order")
        h.check(same(flat_map_expansion(e, order=order, shallow=shallow), want),
                "flat_map_expansion does not visit the expansions in order")
        flags = dict()
        for i, x in enumerate(visit(e, PRE, False)):
            flags[id(x)] = h.flag("f%d" % i)
        calls = []

        def test(x):
            calls.append(x)
            return flags[id(x)]
        got = filter_expansion(e, test, order, shallow)
        h.check(same(calls, want), "filter_expansion does not test each expansion once, in order")
        h.check(same(got, [x for x in want if flags[id(x)]]), "filter_expansion gives other expansions")
        one = find_expansion(e, lambda x: flags[id(x)], order, shallow)
        h.check(one is (got[0] if got else None), "find_expansion does not give the first expansion")
        h.check(same(e.collect_leaves(order, shallow),
                     [x for x in want if isinstance(x, jsgf.NamedRuleRef) or not x.children]),
                "the leaves are not those of the tree, in order")
        for bad in (2, None):
            for f in (map_expansion, find_expansion, filter_expansion, flat_map_expansion):
                try:
                    f(e, lambda x: False, bad)
                    h.fail("an invalid order was accepted")
                except ValueError:
                    pass
        h.observe("found", None if one is None else type(one).__name__)
        h.reach("found" if got else "none")
    return fn


# -- relations ---------------------------------------------------------------
def chain(x):
    """The ancestors of x."""
    out = []
    while x.parent is not None:
        x = x.parent
        out.append(x)
    return out


def links(e, joined):
    """{id(node): parent} for a tree, with the trees of referenced rules if they are joined to it."""
    up = {id(e): None}
    todo = [e]
    while todo:
        x = todo.pop()
        kids = list(x.children)
        if joined and isinstance(x, jsgf.NamedRuleRef):
            kids = [x.referenced_rule.expansion]
        for c in kids:
            up[id(c)] = x
            todo.append(c)
    return up


def up_path(up, x):
    out = [x]
    while up[id(out[-1])] is not None:
        out.append(up[id(out[-1])])
    return out


def excluded(up, x, y):
    """Below different alternatives of one set."""
    px, py = up_path(up, x), up_path(up, y)
    for i in range(len(px) - 1):
        s = px[i + 1]
        if isinstance(s, jsgf.AlternativeSet):
            for j in range(len(py) - 1):
                if py[j + 1] is s and py[j] is not px[i]:
                    return True
    return False


def relations(h, e, joined, msg=""):
    up = links(e, joined)
    xs = [x for x in visit(e, PRE, not joined)]
    leaves = visit(e, PRE, False)
    leaves = [x for x in leaves if isinstance(x, jsgf.NamedRuleRef) or not x.children]
    for x in xs:
        path = up_path(up, x)
        h.check(x.parent is up[id(x)], msg + "an expansion has another parent")
        h.check(x.root_expansion is e, msg + "an expansion has another root")
        h.check(x.is_optional == any(isinstance(y, (jsgf.OptionalGrouping, jsgf.KleeneStar)) for y in path),
                msg + "is_optional is wrong")
        if not any(isinstance(y, jsgf.AlternativeSet) and len(y.children) < 2 for y in path):
            h.check(x.is_alternative == any(isinstance(y, jsgf.AlternativeSet) for y in path),
                    msg + "is_alternative is wrong")
        reps = [y for y in path[1:] if isinstance(y, jsgf.Repeat)]
        h.check(x.repetition_ancestor is (reps[0] if reps else None), msg + "repetition_ancestor is wrong")
        for y in xs:
            below = y is not x and any(z is x for z in visit(y, PRE, False))
            h.check(x.is_descendant_of(y) == below, msg + "is_descendant_of is wrong")
            h.check(x.mutually_exclusive_of(y) == excluded(up, x, y), msg + "mutually_exclusive_of is wrong")
        i = [k for k, z in enumerate(leaves) if z is x]
        after = leaves[i[0] + 1:] if i else []
        h.check(same(x.leaves_after, after), msg + "leaves_after is wrong")
        h.check(same(x.matchable_leaves_after,
                     [z for z in after if not (id(z) in up and excluded(up, x, z))]),
                msg + "matchable_leaves_after is wrong")
        if any(excluded(up, x, y) for y in xs):
            h.reach("exclusive")
    h.reach("checked")


def related(budget, inner):
    def fn(h):
        e, rules = make(h, budget, inner=inner)
        relations(h, e, False)
        if rules:
            was = [r.expansion.parent for r in rules]
            with JointTreeContext(e):
                relations(h, e, True, "joined: ")
            h.check(same([r.expansion.parent for r in rules], was), "the trees were not detached")
            relations(h, e, False, "detached: ")
            try:
                with JointTreeContext(e):
                    raise KeyError()
            except KeyError:
                pass
            h.check(same([r.expansion.parent for r in rules], was), "the trees were not detached after an error")
            h.reach("joined")
    return fn


def edited(budget, inner):
    """After an edit and the documented invalidation, relations are those of the new tree."""
    def fn(h):
        e, _ = make(h, budget, leaves=("lit",), inner=inner)
        if not e.children:
            return
        relations(h, e, False)
        xs = visit(e, PRE, True)
        many = [x for x in xs if isinstance(x, (jsgf.Sequence, jsgf.AlternativeSet))]
        if not many:
            return
        to = h.pick(many, "to")
        movable = [x for x in xs if x.parent is not None and isinstance(x.parent, (jsgf.Sequence, jsgf.AlternativeSet))
                   and not any(y is to for y in visit(x, PRE, True))]
        k = h.choose(len(movable) + 1, "what")
        if k == len(movable):
            x = jsgf.Sequence("y")
        else:
            x = movable[k]
            kids = x.parent.children
            i = [j for j, y in enumerate(kids) if y is x][0]
            kids.pop(i)
        to.children.insert(0 if h.bool("first") else len(to.children), x)
        map_expansion(x, Expansion.invalidate_calculations)
        relations(h, e, False, "edited: ")
    return fn


def apart(h):
    """Expansions of different trees."""
    a, _ = make(h, 2, leaves=("lit",), inner=("seq", "alt", "opt"))
    b, _ = make(h, 2, leaves=("lit",), inner=("seq", "alt", "opt"))
    for x in visit(a, PRE, True):
        for y in visit(b, PRE, True):
            h.check(not x.mutually_exclusive_of(y) and not x.is_descendant_of(y),
                    "expansions of different trees are related")
    h.reach("checked")


Q, T, B = ("quick",), ("thorough",), ("quick", "thorough")
F = ("found", "none")
REL = "trees of at most %d nodes (literals, references by name or object to rules with trees of their own, %s); every expansion " \
      "and pair of expansions, before, within and after a JointTreeContext"
A5 = ("seq", "alt", "opt", "rep", "star")
HARNESSES = [
    dict(name="traverse4", fn=traversals(4), tiers=Q, reach=F,
         bounds="trees of at most 4 nodes (literals, sequences, sets, optionals) with references by name or object to rules with trees of their own; "
                "each order, shallow or not; any predicate (one symbolic truth value per expansion)"),
    dict(name="wide", fn=traversals("wide4"), tiers=Q, reach=F, bounds="sequences, groups and sets of 4 children, any one of them within another expansion"),
    dict(name="wide6", fn=traversals("wide"), tiers=T, reach=F, bounds="sequences, groups and sets of 4 or 6 children, any one of them within another expansion"),
    dict(name="deep", fn=traversals("deep3"), tiers=Q, reach=F, bounds="three expansions within each other, of two kinds in turn"),
    dict(name="deep5", fn=traversals("deep"), tiers=T, reach=F, bounds="five expansions within each other, of two kinds in turn"),
    dict(name="traverse5", fn=traversals(5), tiers=T, reach=F, bounds="as traverse4 with 5 nodes"),
    dict(name="relations4", fn=related(4, A5), tiers=Q, reach=("checked", "joined", "exclusive"),
         bounds=REL % (4, "sequences, sets, optionals, repeats")),
    dict(name="relations5", fn=related(5, ("seq", "alt", "opt")), tiers=B, reach=("checked", "joined", "exclusive"),
         bounds=REL % (5, "sequences, sets, optionals")),
    dict(name="relations6", fn=related(6, ("seq", "alt", "rep")), tiers=T, reach=("checked", "joined", "exclusive"),
         bounds=REL % (6, "sequences, sets, repeats")),
    dict(name="edited4", fn=edited(4, ("seq", "alt", "opt")), tiers=B, reach=("checked",),
         bounds="trees of at most 4 nodes, a part moved or added anywhere after all relations were asked for, and "
                "invalidate_calculations called for the moved part"),
    dict(name="edited5", fn=edited(5, ("seq", "alt")), tiers=T, reach=("checked",), bounds="as edited4 with 5 nodes, sequences and sets"),
    dict(name="apart", fn=apart, tiers=B, reach=("checked",), bounds="two trees of at most 2 nodes each"),
]
OUTSIDE = ["is_alternative below sets with one alternative (documentation and tests disagree)",
           "relations after edits without the documented call of invalidate_calculations",
           "one rule referenced twice in a joined tree; rules that reference themselves"]
