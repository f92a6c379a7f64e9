"""Generation of expansion trees: every shape within a node budget, symbolic text."""
import jsgf
from symex.alph import LOWER

WORD = LOWER + "0123456789_'-"
LEAVES = ("lit",)
INNER = ("seq", "group", "alt", "opt", "rep", "star")
CLASSES = dict(seq="Sequence", group="RequiredGrouping", alt="AlternativeSet",
               opt="OptionalGrouping", rep="Repeat", star="KleeneStar")


class Gen:
    """
    Builds one tree per path.

    budget: maximum number of nodes, or "wide", "deep", "wide4" or the like (see make_large); leaves/inner: the kinds of nodes used;
    kids: maximum number of children; empty: childless sequences are allowed;
    text: function (gen) -> literal text; tag: function (gen) -> tag or "".
    """

    def __init__(self, h, budget, leaves=LEAVES, inner=INNER, kids=3, empty=False,
                 text=None, tag=None, ref=None):
        self.h = h
        self.large = budget if isinstance(budget, str) else None
        self.left = 0 if self.large else budget
        self.leaves = leaves
        self.inner = inner
        self.kids = kids
        self.empty = empty
        self.text = text or word1
        self.tag = tag
        self.ref = ref
        self.n = 0
        self.nodes = []
        self.alts = []

    def done(self, e, name):
        if self.tag is not None:
            t = self.tag(self, name)
            if t is not None:
                e.tag = t
        self.nodes.append(e)
        if isinstance(e, jsgf.AlternativeSet):
            self.alts.append(e)
        return e

    def leaf(self, name):
        """Literals of different letters, or what leaves has first."""
        kind = self.leaves[0]
        return self.done(jsgf.Literal("abcdef"[int(name[1:])]) if kind == "lit" else getattr(self, "mk_" + kind)(name), name)

    def make_large(self, how):
        """
        wide: 4 or 6 children, of which any one may be within another expansion;
        deep: five expansions within each other, of two kinds in turn, with a leaf after each
        one that can have several children. A number after either is that of children or depth.
        """
        h = self.h
        size, how = how[4:], how[:4]
        if how == "wide":
            kind = h.pick([k for k in self.inner if k in ("seq", "group", "alt")], "root")
            n = int(size) if size else 4 + 2 * h.choose(2, "n")
            at = h.choose(n + 1, "at")
            kids = []
            for i in range(n):
                x = self.leaf("c%d" % i)
                if i == at:
                    x = self.done(getattr(jsgf, CLASSES[h.pick(self.inner, "within")])(x), "w%d" % i)
                kids.append(x)
            return self.done(getattr(jsgf, CLASSES[kind])(*kids), "root")
        kinds = h.pick(self.inner, "k0"), h.pick(self.inner, "k1")
        e = self.leaf("c0")
        for i in range(int(size or 5)):
            k = kinds[i % 2]
            cls = getattr(jsgf, CLASSES[k])
            e = self.done(cls(e, self.leaf("c%d" % (i + 1))) if k in ("seq", "group", "alt") else cls(e), "d%d" % i)
        return e

    def tree(self):
        h = self.h
        if self.large:
            how, self.large = self.large, None
            return self.make_large(how)
        self.left -= 1
        self.n += 1
        name = "n%d" % self.n
        inner = self.inner if self.left > 0 or self.empty else ()
        if not (self.left > 0):
            inner = tuple(k for k in inner if k in ("seq", "group", "alt"))
        kinds = self.leaves + inner
        kind = h.pick(kinds, name)
        e = getattr(self, "mk_" + kind)(name)
        return self.done(e, name)

    def mk_lit(self, name):
        return jsgf.Literal(self.text(self, name + ".t"))

    def mk_ref(self, name):
        return self.ref(self, name) if self.ref else \
            jsgf.NamedRuleRef(self.h.string(name + ".r", 1, 1, LOWER))

    def mk_null(self, name):
        return jsgf.NullRef()

    def mk_void(self, name):
        return jsgf.VoidRef()

    def one(self, cls):
        return cls(self.tree())

    def mk_opt(self, name):
        return self.one(jsgf.OptionalGrouping)

    def mk_rep(self, name):
        return self.one(jsgf.Repeat)

    def mk_star(self, name):
        return self.one(jsgf.KleeneStar)

    def many(self, name):
        h = self.h
        kids = []
        if self.left > 0 and not (self.empty and h.bool(name + ".empty")):
            kids.append(self.tree())
            while self.left > 0 and len(kids) < self.kids and \
                    h.bool("%s.more%d" % (name, len(kids))):
                kids.append(self.tree())
        return kids

    def mk_seq(self, name):
        return jsgf.Sequence(*self.many(name))

    def mk_group(self, name):
        return jsgf.RequiredGrouping(*self.many(name))

    def mk_alt(self, name):
        return jsgf.AlternativeSet(*self.many(name))


def word1(g, name):
    """A word of one symbolic character."""
    return g.h.string(name, 1, 1, WORD)


def word2(g, name):
    """A word of one or two symbolic characters."""
    return g.h.string(name, 1, 2, WORD)


def words(g, name):
    """One or two words of one symbolic character each."""
    a = g.h.string(name, 1, 1, WORD)
    if g.h.bool(name + ".two"):
        a = a + " " + g.h.string(name + "b", 1, 1, WORD)
    return a


def fixed_words(*ws):
    """The words w0, w1, ... in order of creation."""
    def text(g, name):
        g.k = getattr(g, "k", -1) + 1
        return ws[g.k % len(ws)]
    return text


def clone(e, rules=None):
    """An equal tree of new objects, built with the constructors only."""
    rules = {} if rules is None else rules
    if isinstance(e, (jsgf.NullRef, jsgf.VoidRef)):
        out = type(e)()
    elif isinstance(e, jsgf.RuleRef):
        out = jsgf.RuleRef(clone_rule(e.referenced_rule, rules))
    elif isinstance(e, jsgf.NamedRuleRef):
        out = jsgf.NamedRuleRef(e.name)
    elif type(e) is jsgf.Literal:
        out = jsgf.Literal(e.text, e.case_sensitive)
    elif isinstance(e, jsgf.Literal):
        out = type(e)()
    else:
        out = type(e)(*[clone(c, rules) for c in e.children])
    if e.tag:
        out.tag = e.tag
    if isinstance(e, jsgf.AlternativeSet) and e.weights:
        for i, c in enumerate(e.children):
            out.set_weight(i, e.weights[c])
    return out


def clone_rule(r, rules=None):
    rules = {} if rules is None else rules
    got = rules.get(id(r))
    if got is None:
        got = rules[id(r)] = jsgf.Rule(r.name, r.visible, clone(r.expansion, rules),
                                       case_sensitive=r.case_sensitive)
        for x, y in zip(_literals(r.expansion), _literals(got.expansion)):
            y.case_sensitive = x.case_sensitive
        if not r.active:
            got.disable()
    return got


def _literals(e):
    if isinstance(e, jsgf.Literal):
        yield e
    elif not isinstance(e, jsgf.NamedRuleRef):
        for c in e.children:
            for x in _literals(c):
                yield x
