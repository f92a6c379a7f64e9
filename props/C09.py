"""C09: after any edit, matching and compiling reflect the rule as it is now."""
import jsgf
from symex.alph import LOWER
from props.gen import Gen, clone_rule
from props.matchref import speech_words, state, states_equal, nodes


def word(g, name):
    return g.h.string(name, 1, 1, LOWER)


def new(h, name):
    k = h.choose(3, name + ".new")
    w = h.string(name + ".w", 1, 1, LOWER)
    return w if k == 0 else jsgf.OptionalGrouping(w) if k == 1 else jsgf.Repeat(w)


def some(h, rule, name, kind):
    xs = [x for x in nodes(rule.expansion) if kind(x)]
    return h.pick(xs, name + ".at") if xs else None


def many(x):
    return isinstance(x, (jsgf.Sequence, jsgf.AlternativeSet))


def parent(x):
    return bool(x.children)


def ed_append(h, r, n):
    e = some(h, r, n, many)
    if e is not None:
        e.children.append(new(h, n))
        return True


def ed_insert(h, r, n):
    e = some(h, r, n, many)
    if e is not None:
        e.children.insert(0, new(h, n))
        return True


def ed_extend(h, r, n):
    e = some(h, r, n, many)
    if e is not None:
        e.children.extend([new(h, n)])
        return True


def ed_pop(h, r, n):
    e = some(h, r, n, lambda x: many(x) and len(x.children) > 0)
    if e is not None:
        e.children.pop(h.choose(len(e.children), n + ".i"))
        return True


def ed_remove(h, r, n):
    e = some(h, r, n, lambda x: many(x) and len(x.children) > 0)
    if e is not None:
        e.children.remove(e.children[0])
        return True


def ed_clear(h, r, n):
    e = some(h, r, n, lambda x: many(x) and len(x.children) > 0)
    if e is not None:
        e.children.clear()
        return True


def ed_set(h, r, n):
    e = some(h, r, n, parent)
    if e is not None:
        e.children[h.choose(len(e.children), n + ".i")] = new(h, n)
        return True


def ed_slice(h, r, n):
    e = some(h, r, n, many)
    if e is not None:
        e.children[0:1] = [new(h, n)]
        return True


def ed_children(h, r, n):
    e = some(h, r, n, parent)
    if e is not None:
        e.children = [new(h, n)]
        return True


def ed_empty(h, r, n):
    e = some(h, r, n, many)
    if e is not None:
        e.children = []
        return True


def ed_text(h, r, n):
    e = some(h, r, n, lambda x: isinstance(x, jsgf.Literal))
    if e is not None:
        e.text = h.string(n + ".w", 1, 1, LOWER)
        return True


def ed_rule(h, r, n):
    k = [r] + [x.referenced_rule for x in nodes(r.expansion) if isinstance(x, jsgf.NamedRuleRef)]
    h.pick(k, n + ".rule").expansion = new(h, n)
    return True


def ed_case(h, r, n):
    r.case_sensitive = not r.case_sensitive
    return True


def ed_off(h, r, n):
    r.disable()
    return True


EDITS = (ed_append, ed_insert, ed_extend, ed_pop, ed_remove, ed_clear, ed_set, ed_slice,
         ed_children, ed_empty, ed_text, ed_rule, ed_case, ed_off)
MIXED = "abAB"
UP = LOWER + "ABCDEFGHIJKLMNOPQRSTUVWXYZ"


def compare(h, rule, fresh, speech, compile_=True):
    want = fresh.matches(speech)
    got = rule.matches(speech)
    h.observe("matched", got)
    h.check(got == want, "matching does not reflect the rule as it is now")
    if rule.active:
        a, b = state(rule), state(fresh)
        h.observe("state", a)
        h.check(states_equal(a, b), "the match data do not reflect the rule as it is now")
    if compile_:
        h.check(rule.compile() == fresh.compile(), "the compiled rule does not reflect the rule as it is now")
    h.reach("matched" if got else "rejected")


def edits(budget, nwords, nedits, eds=EDITS, leaves=("lit",), inner=("seq", "alt", "opt", "rep"),
          first=True, upper=False):
    def fn(h):
        def ref(g, name):
            sub = g.tree() if g.left > 0 else jsgf.Literal(word(g, name))
            r = jsgf.PrivateRule("x" + name, sub)
            if named:
                grammar.add_rule(r)
                return jsgf.NamedRuleRef(r.name)
            return jsgf.RuleRef(r)
        named = "ref" in leaves and h.bool("named")
        grammar = jsgf.Grammar("g")
        g = Gen(h, budget, leaves=leaves, inner=inner, text=word, ref=ref)
        rule = jsgf.PublicRule("r", g.tree())
        if named:
            grammar.add_rule(rule)
        if first:
            rule.matches(" ".join(speech_words(h, 1, LOWER, "p")))
        for i in range(nedits):
            if not h.pick(eds, "ed%d" % i)(h, rule, "e%d" % i):
                return
        rule2 = rule
        if named:
            g2 = jsgf.Grammar("g")
            rule2 = None
            for r in grammar.rules:
                c = clone_rule(r)
                g2.add_rule(c)
                if r is rule:
                    rule2 = c
            fresh = rule2
        else:
            fresh = clone_rule(rule)
        compare(h, rule, fresh, " ".join(speech_words(h, 1 + h.choose(nwords, "words"),
                                                      UP if upper else LOWER)))
    return fn


def weights(nwords):
    """Weights set, changed and children removed between matches."""
    def fn(h):
        n = 2 + h.choose(2, "n")
        kids = []
        for i in range(n):
            x = jsgf.Literal(h.string("t%d" % i, 1, 1, LOWER))
            for y in kids:
                h.assume(x.text != y.text)
            kids.append(x)
        a = jsgf.AlternativeSet(*kids)
        rule = jsgf.PublicRule("r", a if h.bool("root") else jsgf.Repeat(a))

        def weigh(k):
            for i in range(len(a.children)):
                a.set_weight(i, h.pick((0, 1, 2), "w%d.%d" % (k, i)))
        w0 = h.bool("w0")
        if w0:
            weigh(0)
        rule.matches(h.string("p", 1, 1, LOWER))
        k = h.choose(3, "edit")
        if k == 0:
            weigh(1)
        elif k == 1:
            a.children.pop(h.choose(n, "pop"))
        else:
            x = h.string("t", 1, 1, LOWER)
            for y in kids:
                h.assume(y.text != x)
            a.children.append(x)
            if w0:
                a.set_weight(n, h.pick((0, 1), "wn"))
        compare(h, rule, clone_rule(rule), " ".join(speech_words(h, 1 + h.choose(nwords, "words"), LOWER)))
    return fn


def reweigh(nedits, nwords):
    """Alternatives keep their weights if they are changed."""
    def fn(h):
        wraps = (lambda x: x, jsgf.OptionalGrouping, jsgf.Repeat, lambda x: jsgf.Sequence(x, "z"))
        kind = h.choose(4, "kind")
        lits, texts = [], []
        for i in range(2):
            texts.append(h.string("t%d" % i, 1, 1, MIXED))
            lits.append(jsgf.Literal(texts[i], h.bool("cs%d" % i)))
        weights = h.pick(((1, 2), (0, 1)), "weights")
        kids = [wraps[kind](lits[0]), lits[1]]
        h.assume(lits[0].text.lower() != lits[1].text.lower())
        a = jsgf.AlternativeSet(*kids)
        rule = jsgf.PublicRule("r", a, case_sensitive=True) if h.bool("sensitive") else jsgf.PublicRule("r", a)
        how = h.choose(3, "how") if kind == 0 else 1
        if how == 0:
            for i in range(2):
                a.set_weight(i, weights[i])
        elif how == 1:
            for i in range(2):
                a.set_weight(a.children[i], weights[i])
        else:
            a.weights = {a.children[i]: weights[i] for i in range(2)}
        if h.bool("match first"):
            rule.matches(h.string("p", 1, 1, LOWER))
        for i in range(nedits):
            op = h.choose(4, "op%d" % i)
            if op == 0:
                k = h.choose(2, "which%d" % i)
                texts[k] = h.string("n%d" % i, 1, 1, MIXED)
                lits[k].text = texts[k]
            elif op == 1:
                rule.case_sensitive = not rule.case_sensitive
            elif op == 2:
                a.children[h.choose(2, "which%d" % i)].tag = "tag"
            elif kind == 3:
                kids[0].children.append("y")
            h.assume(lits[0].text.lower() != lits[1].text.lower())
        # the same set, made of new objects and weighed afterwards
        new = []
        for c in a.children:
            c2 = clone_plain(c, dict(zip(map(id, lits), texts)))
            new.append(c2)
        b = jsgf.AlternativeSet(*new)
        fresh = jsgf.PublicRule("r", b)
        for x, y in zip(nodes(a), nodes(b)):
            if isinstance(x, jsgf.Literal):
                y.case_sensitive = x.case_sensitive
        for i in range(2):
            b.set_weight(i, weights[i])
        for i in range(2):
            h.check(a.weights[a.children[i]] == weights[i], "a changed alternative has lost its weight")
        h.check(a == b and b == a, "the set of alternatives is not equal to a new one with the same weights")
        compare(h, rule, fresh, " ".join(speech_words(h, 1 + h.choose(nwords, "words"), LOWER)))
    return fn


def clone_plain(e, texts):
    if isinstance(e, jsgf.Literal):
        out = jsgf.Literal(texts.get(id(e), e.text), e.case_sensitive)
    else:
        out = type(e)(*[clone_plain(c, texts) for c in e.children])
    if e.tag:
        out.tag = e.tag
    return out


def move(h):
    """A subtree is moved from one rule to another after both were matched."""
    a, b = word_lit(h, "a"), word_lit(h, "b")
    sub = [lambda: jsgf.Repeat(a), lambda: jsgf.OptionalGrouping(a), lambda: jsgf.Sequence(a, b),
           lambda: jsgf.AlternativeSet(a, b)][h.choose(4, "sub")]()
    e1 = jsgf.Sequence(sub, word_lit(h, "c"))
    e2 = h.pick((jsgf.Sequence, jsgf.AlternativeSet), "e2")(word_lit(h, "d"))
    r1, r2 = jsgf.PublicRule("r1", e1), jsgf.PublicRule("r2", e2)
    p = h.string("p", 1, 1, LOWER)
    if h.bool("m1"):
        r1.matches(p)
    if h.bool("m2"):
        r2.matches(p)
    e1.children.remove(sub)
    e2.children.append(sub)
    s = " ".join(speech_words(h, 1 + h.choose(2, "words"), LOWER))
    compare(h, r1, clone_rule(r1), s)
    compare(h, r2, clone_rule(r2), s)


def hoist(budget):
    """Parts of a rule become its expansion, or that of another rule."""
    def fn(h):
        g = Gen(h, budget, inner=("seq", "alt", "opt", "rep"), text=word)
        e = g.tree()
        r = jsgf.PublicRule("r", e)
        if h.bool("match first"):
            r.matches(h.string("p", 1, 1, LOWER))
        x = h.pick(list(nodes(e)), "part")
        if h.bool("other rule"):
            r = jsgf.PublicRule("r", x)
        else:
            r.expansion = x
        h.check(r.expansion is x and x.rule is r, "the expansion is not the one that was set")
        k = h.choose(3, "words")
        compare(h, r, clone_rule(r), " ".join(speech_words(h, k, LOWER)))
    return fn


def move_ref(h):
    """A reference is moved between rules of grammars that have other rules of that name."""
    rules = []
    for n in "gh":
        g = jsgf.Grammar(n)
        e = jsgf.Sequence(word_lit(h, n))
        r = jsgf.PublicRule("r", e)
        x = jsgf.PrivateRule("x", word_lit(h, "x" + n))
        g.add_rules(r, x)
        rules.append((r, e, x))
    (r1, e1, x1), (r2, e2, x2) = rules
    ref = jsgf.NamedRuleRef("x")
    sub = h.pick((lambda: ref, lambda: jsgf.OptionalGrouping(ref), lambda: jsgf.Repeat(jsgf.Sequence(ref))), "sub")()
    if h.bool("new rule"):
        r1.expansion = jsgf.Sequence(e1, sub)
        e1 = r1.expansion
    else:
        e1.children.append(sub)
    p = h.string("p", 1, 1, LOWER)
    if h.bool("matched"):
        r1.matches(p)
        r2.matches(p)
    k = h.choose(3, "how")
    e1.children.remove(sub)
    if k == 0:
        e2.children.append(sub)
    elif k == 1:
        e2.children[0] = sub
    else:
        r2.expansion = sub
    s = " ".join(speech_words(h, 1 + h.choose(2, "words"), LOWER))
    h.check(ref.referenced_rule is x2, "a moved reference leads to a rule of the former grammar")
    compare(h, r2, jsgf.PublicRule("r", clone_refs(r2.expansion, x2)), s)
    compare(h, r1, jsgf.PublicRule("r", clone_refs(r1.expansion, x1)), s)


def rename(h):
    """Rules are renamed, and perhaps swap names; references to rules follow them, and references by name don't."""
    g = jsgf.Grammar("g")
    x = jsgf.PrivateRule("x", word_lit(h, "a"))
    y = jsgf.PrivateRule("y", word_lit(h, "b"))
    ref = h.pick((lambda: jsgf.NamedRuleRef("x"), lambda: jsgf.RuleRef(x)), "ref")()
    wrap = h.choose(3, "wrap")

    def build(ref):
        return (ref if wrap == 0 else jsgf.OptionalGrouping(ref) if wrap == 1 else
                jsgf.AlternativeSet(word_of_c, ref))

    word_of_c = h.string("c", 1, 1, LOWER)
    r = jsgf.PublicRule("r", build(ref))
    g.add_rules(x, y, r)
    s = " ".join(speech_words(h, 1 + h.choose(2, "words"), LOWER))
    if h.bool("matched"):
        r.matches(s)
        r.compile()
    name = h.string("name", 1, 2, LOWER + "1")
    h.assume(h.and_(name != "r", name != "y"))
    swap = h.bool("swap")
    x.name = name
    if swap:
        h.assume(name != "x")
        y.name = "x"
    by_object = isinstance(ref, jsgf.RuleRef)
    n = name if by_object else "x"
    h.check(r.compile() == jsgf.PublicRule("r", build(jsgf.NamedRuleRef(n))).compile(),
            "a compiled reference does not have the name of the renamed rule")
    if by_object or swap:
        now = x if by_object else y
        h.check(ref.referenced_rule is now, "the reference leads to another rule")
        compare(h, r, jsgf.PublicRule("r", clone_refs(r.expansion, now)), s)
        h.check(now.dependent_rules == {r}, "the renamed rule has other dependent rules")
    elif name != "x":
        try:
            ref.referenced_rule
            h.fail("a reference by a former name leads to a rule")
        except jsgf.GrammarError:
            h.reach("gone")


def word_lit(h, name):
    return jsgf.Literal(h.string(name, 1, 1, LOWER))


def later(h):
    """References added to a rule after it was created are resolved."""
    g = jsgf.Grammar("g")
    x = jsgf.PrivateRule("x", word_lit(h, "x"))
    e = h.pick((jsgf.Sequence, jsgf.AlternativeSet), "e")(word_lit(h, "a"))
    r = jsgf.PublicRule("r", e)
    g.add_rules(x, r)
    s = " ".join(speech_words(h, 1 + h.choose(2, "words"), LOWER))
    if h.bool("m"):
        r.matches(s)
    ref = jsgf.NamedRuleRef("x")
    k = h.choose(3, "how")
    if k == 0:
        e.children.append(ref)
    elif k == 1:
        e.children.append(jsgf.OptionalGrouping(ref))
    else:
        e.children[0] = ref
    fresh = jsgf.PublicRule("r", clone_refs(e, x))
    compare(h, r, fresh, s)


def clone_refs(e, x):
    if isinstance(e, jsgf.NamedRuleRef):
        return jsgf.RuleRef(x)
    if isinstance(e, jsgf.Literal):
        return jsgf.Literal(e.text)
    return type(e)(*[clone_refs(c, x) for c in e.children])


R = ("matched", "rejected")
Q, T, B = ("quick",), ("thorough",), ("quick", "thorough")
TREE = ("rules of at most %d nodes (literals of one symbolic letter, sequences, alternatives, "
        "optionals, repeats), matched with one symbolic word, then %d edit(s) of any kind at any "
        "node (append, insert, extend, pop, remove, clear, item, slice and children assignment, "
        "literal text, rule expansion, case sensitivity, disabling), then matched with up to %d "
        "symbolic one-letter words")
HARNESSES = [
    dict(name="edit3", fn=edits(3, 2, 1), tiers=Q, reach=R, bounds=TREE % (3, 1, 2)),
    dict(name="edit2x2", fn=edits(2, 1, 2), tiers=Q, reach=R, bounds=TREE % (2, 2, 1)),
    dict(name="wide", fn=edits("wide4", 1, 1), tiers=Q, reach=R, bounds="sequences, groups and sets of 4 children, any one of them within another expansion, 1 edit"),
    dict(name="wide6", fn=edits("wide", 1, 1), tiers=T, reach=R, bounds="sequences, groups and sets of 4 or 6 children, any one of them within another expansion, 1 edit"),
    dict(name="deep", fn=edits("deep3", 1, 1), tiers=Q, reach=R, bounds="three expansions within each other, of two kinds in turn, 1 edit"),
    dict(name="deep5", fn=edits("deep", 1, 1), tiers=T, reach=R, bounds="five expansions within each other, of two kinds in turn, 1 edit"),
    dict(name="edit4", fn=edits(4, 3, 1), tiers=T, reach=R, bounds=TREE % (4, 1, 3)),
    dict(name="edit3x2", fn=edits(3, 2, 2), tiers=T, reach=R, bounds=TREE % (3, 2, 2)),
    dict(name="refs", fn=edits(3, 1, 1, leaves=("lit", "ref"), inner=("seq", "opt")), tiers=Q, reach=R,
         bounds="as edit3 with 1 word, sequences, optionals and references (by object or by name) "
                "to a second rule, which is edited as well"),
    dict(name="refs4", fn=edits(4, 2, 1, leaves=("lit", "ref"), inner=("seq", "alt", "opt", "rep")),
         tiers=T, reach=R, bounds="as refs with 4 nodes, all kinds of nodes and up to 2 words"),
    dict(name="case", fn=edits(2, 1, 2, eds=(ed_case, ed_append, ed_rule), upper=True), tiers=B,
         reach=R, bounds="rules of 2 nodes, 2 edits out of case toggling, append and new expansion; "
                         "1 symbolic word of either case"),
    dict(name="weights", fn=weights(1), tiers=Q, reach=R,
         bounds="sets of 2 or 3 distinct one-letter alternatives, alone or repeated, with weights "
                "0, 1, 2 that are set, changed, removed or added; 1 word"),
    dict(name="weights2", fn=weights(2), tiers=T, reach=R, bounds="as weights with up to 2 words"),
    dict(name="reweigh", fn=reweigh(1, 1), tiers=Q, reach=R,
         bounds="2 weighted alternatives (a literal alone, optional, repeated or in a sequence, and a literal) of one symbolic "
                "letter of either case, weighed in 3 ways, with the weights 1, 2 or 0, 1, then one changes its text, case sensitivity, tag or parts; 1 word"),
    dict(name="reweigh2", fn=reweigh(2, 2), tiers=T, reach=R, bounds="as reweigh with 2 changes and up to 2 words"),
    dict(name="move", fn=move, tiers=B, reach=R,
         bounds="a repeat, optional, sequence or set moved between two rules after matching either, "
                "both or none; up to 2 words"),
    dict(name="hoist", fn=hoist(3), tiers=B, reach=R,
         bounds="any part of a rule of at most 3 nodes becomes the expansion of that rule or of a new one; up to 2 words"),
    dict(name="move-ref", fn=move_ref, tiers=B, reach=R,
         bounds="a reference by name, alone, optional or repeated, moved from a rule of one grammar into a rule of another, "
                "with rules of that name in both; up to 2 words"),
    dict(name="rename", fn=rename, tiers=B, reach=R + ("gone",),
         bounds="a rule that is referenced by object or by name is renamed to a symbolic name of 1 or 2 characters, "
                "before or after it was matched; another rule may get its name; up to 2 words"),
    dict(name="later", fn=later, tiers=B, reach=R,
         bounds="a named reference added to a rule of a grammar before or after its first match; up to 2 words"),
]
