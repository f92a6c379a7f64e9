"""C15: children behave as a list and the parent links always agree with it."""
import jsgf
from symex.alph import LOWER


class Model:
    """The expected children of one expansion, next to the real one."""

    def __init__(self, h, e, kids):
        self.h, self.e, self.kids = h, e, kids
        self.seen = list(kids)

    def fresh(self, name, bad=False):
        """(object passed, function that tells the node in the list)"""
        h = self.h
        k = h.choose(3 if bad else 2, name + ".kind")
        if k == 2:
            return h.pick((None, 5), name + ".bad")
        w = h.string(name, 1, 1, LOWER)
        if k == 0:
            return w
        x = jsgf.Literal(w)
        self.seen.append(x)
        return x

    def new(self, item, pos):
        """The node for an item that is now at a position of the list."""
        h = self.h
        if isinstance(item, jsgf.Expansion):
            return item
        x = self.e.children[pos]
        h.check(isinstance(x, jsgf.Literal) and type(x) is jsgf.Literal, "a string did not become a literal")
        h.check(x.text == item, "a string became a literal with another text")
        h.check(all(x is not y for y in self.seen), "a string became a node that was there before")
        self.seen.append(x)
        return x


def is_bad(x):
    return x is None or x == 5 if not isinstance(x, jsgf.Expansion) else False


def attempt(f):
    try:
        return f(), None
    except Exception as ex:
        return None, type(ex)


def op_append(m, n):
    x = m.fresh(n, True)
    _, err = attempt(lambda: m.e.children.append(x))
    if is_bad(x):
        return err, TypeError
    m.kids.append(m.new(x, len(m.kids)))
    return err, None


def op_extend(m, n):
    xs = [m.fresh("%s.%d" % (n, i), i == 1) for i in range(m.h.choose(3, n + ".n"))]
    how = m.h.choose(3, n + ".how")
    if how == 0:
        _, err = attempt(lambda: m.e.children.extend(xs))
    elif how == 1:
        _, err = attempt(lambda: m.e.children.extend(x for x in xs))
    else:
        def add():
            m.e.children += xs
        _, err = attempt(add)
    if any(is_bad(x) for x in xs):
        return err, TypeError
    k = len(m.kids)
    for i, x in enumerate(xs):
        m.kids.append(m.new(x, k + i))
    return err, None


def op_insert(m, n):
    x = m.fresh(n, True)
    i = m.h.choose(7, n + ".i") - 3
    _, err = attempt(lambda: m.e.children.insert(i, x))
    if is_bad(x):
        return err, TypeError
    k = len(m.kids)
    at = max(i + k, 0) if i < 0 else min(i, k)
    m.kids.insert(i, m.new(x, at))
    return err, None


def op_pop(m, n):
    k = m.h.choose(8, n + ".i")
    h = m.h
    if k == 7:
        got, err = attempt(lambda: m.e.children.pop())
        want, werr = attempt(lambda: m.kids.pop())
    else:
        got, err = attempt(lambda: m.e.children.pop(k - 3))
        want, werr = attempt(lambda: m.kids.pop(k - 3))
    h.check(got is want, "pop returned another child")
    return err, werr


def first(m, x):
    for i, y in enumerate(m.kids):
        if type(y) is type(x) and y.text == x.text:
            return i
    return None


def op_remove(m, n):
    if m.kids and m.h.bool(n + ".own"):
        x = m.kids[m.h.choose(len(m.kids), n + ".i")]
    else:
        x = jsgf.Literal(m.h.string(n, 1, 1, LOWER))
    i = first(m, x)
    j, ierr = attempt(lambda: m.e.children.index(x))
    m.h.check((ierr is ValueError) if i is None else j == i, "index is not the place of the first equal child")
    _, err = attempt(lambda: m.e.children.remove(x))
    if i is None:
        return err, ValueError
    m.kids.pop(i)
    return err, None


def op_clear(m, n):
    _, err = attempt(lambda: m.e.children.clear())
    del m.kids[:]
    return err, None


def op_set(m, n):
    x = m.fresh(n, True)
    i = m.h.choose(7, n + ".i") - 3

    def put():
        m.e.children[i] = x
    _, err = attempt(put)
    if is_bad(x):
        return err, TypeError
    if not -len(m.kids) <= i < len(m.kids):
        return err, IndexError
    m.kids[i] = m.new(x, i)
    return err, None


SLICES = (slice(None, None), slice(0, 1), slice(1, None), slice(-1, None), slice(None, -1), slice(1, 1), slice(2, 1),
          slice(None, None, 2), slice(None, None, -1), slice(-1, None, -2))


def op_slice(m, n):
    xs = [m.fresh("%s.%d" % (n, i), i == 1) for i in range(m.h.choose(3, n + ".n"))]
    sl = m.h.pick(SLICES, n + ".slice")

    def put():
        m.e.children[sl] = xs
    _, err = attempt(put)
    if any(is_bad(x) for x in xs):
        return err, TypeError
    trial = list(m.kids)
    marks = [[i] for i in range(len(xs))]
    try:
        trial[sl] = marks
    except ValueError:
        return err, ValueError
    m.kids[:] = [m.new(xs[x[0]], pos) if isinstance(x, list) else x for pos, x in enumerate(trial)]
    return err, None


def op_reverse(m, n):
    """The same children in another order."""
    if m.h.bool(n + ".slice"):
        def put():
            m.e.children[:] = list(reversed(m.e.children))
    else:
        def put():
            m.e.children = tuple(reversed(list(m.e.children)))
    _, err = attempt(put)
    m.kids.reverse()
    return err, None


def op_children(m, n):
    k = m.h.choose(3, n + ".how")
    if k == 2:
        _, err = attempt(lambda: setattr(m.e, "children", "ab"))
        return err, TypeError
    xs = [m.fresh("%s.%d" % (n, i), i == 1) for i in range(m.h.choose(3, n + ".n"))]
    _, err = attempt(lambda: setattr(m.e, "children", tuple(xs) if k else list(xs)))
    if any(is_bad(x) for x in xs):
        return err, TypeError
    m.kids[:] = [m.new(x, i) for i, x in enumerate(xs)]
    return err, None


def op_same(m, n):
    """Children are put where they are already."""
    e, h = m.e, m.h
    k = h.choose(5, n + ".how")
    if k == 0:
        i = h.choose(7, n + ".i") - 3

        def put():
            e.children[i] = e.children[i]
        _, err = attempt(put)
        return err, None if -len(m.kids) <= i < len(m.kids) else IndexError
    elif k == 1:
        sl = h.pick(SLICES, n + ".slice")

        def put():
            e.children[sl] = e.children[sl]
    elif k == 2:
        def put():
            e.children = e.children
    elif k == 3:
        def put():
            e.children += []
    else:
        def put():
            e.children[:] = e.children
    _, err = attempt(put)
    return err, None


def op_back(m, n):
    """A node that was taken out is put in again."""
    out = [x for x in m.seen if all(x is not y for y in m.kids)]
    if not out:
        return None, None
    x = out[m.h.choose(len(out), n + ".which")]
    k = m.h.choose(3, n + ".how")
    if k == 0:
        _, err = attempt(lambda: m.e.children.append(x))
        m.kids.append(x)
    elif k == 1:
        _, err = attempt(lambda: m.e.children.insert(0, x))
        m.kids.insert(0, x)
    else:
        _, err = attempt(lambda: setattr(m.e, "children", [x]))
        m.kids[:] = [x]
    return err, None


OPS = (op_append, op_extend, op_insert, op_pop, op_remove, op_clear, op_set, op_slice, op_reverse, op_children, op_same)


def agree(m, msg=""):
    h, e = m.h, m.e
    h.check(len(e.children) == len(m.kids), "the number of children is wrong")
    got = list(e.children)
    h.check(len(got) == len(m.kids) and all(x is y for x, y in zip(got, m.kids)),
            "the children are not those that the operations leave")
    for i in range(len(m.kids)):
        h.check(e.children[i] is m.kids[i] and e.children[i - len(m.kids)] is m.kids[i],
                "indexing gives another child")
    h.check(e.children[1:] == m.kids[1:], "slicing gives other children")
    h.check(e.children == m.kids, "the children do not compare as a list")
    for x in m.seen:
        inside = any(x is y for y in m.kids)
        if inside:
            h.check(x.parent is e, "a child has another parent than the expansion that has it")
        else:
            h.check(x.parent is None, "a node that was taken out still has a parent")


def history(ops, cls, start, nops):
    def fn(h):
        kids = [jsgf.Literal(h.string("k%d" % i, 1, 1, LOWER)) for i in range(h.choose(start + 1, "start"))]
        e = h.pick(cls, "cls")(*kids)
        m = Model(h, e, kids)
        agree(m)
        for i in range(nops):
            err, want = h.pick(ops, "op%d" % i)(m, "o%d" % i)
            h.observe("error", None if err is None else err.__name__)
            h.check(err is want, "an operation raised another error than a list")
            agree(m)
            h.reach("error" if err else "done")
    return fn


def reads(h):
    """What is read from the children is what is read from a list."""
    kids = [jsgf.Literal(h.string("k%d" % i, 1, 1, LOWER)) for i in range(h.choose(4, "n"))]
    e = h.pick((jsgf.Sequence, jsgf.AlternativeSet), "cls")(*kids)
    c = e.children
    how = h.choose(4, "how")

    def bound(name, more=()):
        return h.pick((None,) + tuple(range(-4, 5)), name)
    if how == 0:
        x = jsgf.Literal(h.string("x", 1, 1, LOWER))
        i, j = h.choose(9, "i") - 4, bound("j")
        args = (i,) if j is None else (i, j)
        got, err = attempt(lambda: c.index(x, *args))
        want, werr = attempt(lambda: kids.index(x, *args))
        h.check(err is werr and got == want, "index with a start and end finds another child than in a list")
        h.reach("found" if err is None else "not found")
    elif how == 1:
        i, j, k = bound("i"), bound("j"), h.pick((None, -2, -1, 1, 2), "k")
        got, want = c[i:j:k], kids[i:j:k]
        h.check(len(got) == len(want) and all(x is y for x, y in zip(got, want)), "slicing gives other children")
    elif how == 2:
        x = jsgf.Literal(h.string("x", 1, 1, LOWER))
        h.check(h.iff(x in c, x in kids), "a child is contained, or not, unlike in a list")
        h.check(len(c) == len(kids) and bool(c) == bool(kids), "the number of children is wrong")
        h.check([x for x in c] == kids and list(reversed(c)) == list(reversed(kids)), "iterating gives other children")
    else:
        other = [jsgf.Literal(h.string("o%d" % i, 1, 1, LOWER)) for i in range(h.choose(3, "m"))]
        if h.bool("as children"):
            same = c == jsgf.Sequence(*other).children
        else:
            same = c == other
        h.check(h.iff(same, kids == other), "the children compare unlike lists")
        both = c + other
        h.check(isinstance(both, list) and all(x is y for x, y in zip(both, kids + other)) and len(both) == len(kids) + len(other),
                "adding a list gives others")
        h.check(all(x.parent is None or x.parent is not e for x in other), "adding a list adopted what is in it")
    h.check(len(c) == len(kids) and all(x is y and x.parent is e for x, y in zip(c, kids)), "reading changed the children")


def single(h):
    """Expansions with one child: replacing it."""
    a, b = (jsgf.Literal(h.string(x, 1, 1, LOWER)) for x in "ab")
    e = h.pick((jsgf.OptionalGrouping, jsgf.Repeat, jsgf.KleeneStar), "cls")(a)
    h.check(e.child is a and a.parent is e, "the child has another parent")
    k = h.choose(4, "how")
    if k == 0:
        e.children[0] = b
    elif k == 1:
        e.children = [b]
    elif k == 2:
        e.children.pop()
        e.children.append(b)
    else:
        e.children[:] = (b,)
    h.check(e.child is b and b.parent is e and a.parent is None, "the links do not agree with the children")
    e.children.remove(b)
    h.check(e.child is None and b.parent is None and len(e.children) == 0, "a removed child still has a parent")
    h.reach("done")


def invalid_new(h):
    """A failing constructor leaves its arguments as they were."""
    a = jsgf.Literal(h.string("a", 1, 1, LOWER))
    old = jsgf.Sequence(a) if h.bool("inside") else None
    bad = h.pick((None, 5), "bad")
    args = [[a, bad], [bad, a], [bad]][h.choose(3, "order")]
    cls = h.pick((jsgf.Sequence, jsgf.RequiredGrouping, jsgf.AlternativeSet), "cls")
    _, err = attempt(lambda: cls(*args))
    h.check(err is TypeError, "an invalid child was accepted")
    h.check(a.parent is old, "a failed constructor changed the parent of its argument")
    for one in (jsgf.OptionalGrouping, jsgf.Repeat, jsgf.KleeneStar):
        _, err = attempt(lambda: one(bad))
        h.check(err is TypeError, "an invalid child was accepted")
    h.reach("done")


V = (jsgf.Sequence, jsgf.RequiredGrouping, jsgf.AlternativeSet)
Q, T, B = ("quick",), ("thorough",), ("quick", "thorough")
OPTEXT = ("operation(s) out of append, extend (list, generator, +=), insert, pop, remove, clear, item, slice (with steps) and "
          "children assignment, reversal, putting children where they are already, with all indices from -3 to 3, symbolic one-letter literals or strings and invalid items")
HARNESSES = [
    dict(name="reads", fn=reads, tiers=("quick", "thorough"), reach=("found", "not found"),
         bounds="up to 3 children of a symbolic letter: index with a start and end from -4 to 4, every slice with those bounds and steps -2 to 2, membership, iteration, comparisons, adding lists"),
    dict(name="one", fn=history(OPS, V, 3, 1), tiers=B, reach=("done", "error"), bounds="up to 3 children, 1 " + OPTEXT),
    dict(name="two", fn=history(OPS, V[:1], 2, 2), tiers=B, reach=("done", "error"), bounds="up to 2 children, 2 " + OPTEXT),
    dict(name="three", fn=history((op_append, op_pop, op_remove, op_clear, op_reverse), V[:1], 2, 3),
         tiers=B, reach=("done", "error"), bounds="up to 2 children, 3 operations out of append, pop, remove, clear and reversal"),
    dict(name="same", fn=history((op_append, op_pop, op_reverse, op_back, op_same), V[:1], 2, 3),
         tiers=B, reach=("done", "error"), bounds="up to 2 children, 3 operations out of append, pop, reversal, putting children where they "
                                                  "are already and putting nodes back that were taken out"),
    dict(name="three-more", fn=history((op_append, op_insert, op_pop, op_remove, op_clear, op_set, op_reverse), V[:1], 1, 3),
         tiers=T, reach=("done", "error"), bounds="up to 1 child, 3 operations without slices and whole assignments"),
    dict(name="four", fn=history((op_append, op_pop, op_remove, op_reverse), V[:1], 1, 4),
         tiers=T, reach=("done", "error"), bounds="up to 1 child, 4 operations out of append, pop, remove and reversal"),
    dict(name="single", fn=single, tiers=B, reach=("done",), bounds="optionals and repeats whose child is replaced and removed"),
    dict(name="invalid", fn=invalid_new, tiers=B, reach=("done",), bounds="constructors with invalid children"),
]
OUTSIDE = ["nodes that are put into a second list, or twice into one, without being taken out first",
           "deleting items with del, which is not supported"]
