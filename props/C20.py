"""C20: the case sensitivity of grammars, rules and literals."""
import jsgf
from props.gen import Gen

LETTERS = "aAbB"
SPECIAL = ("\u00df", "\u0130", "\u0149", "\ufb01", "\u03c2", "\u01f0", "\u00e9", "\u1e9e")


class Model:
    """Case sensitivity as documented: setting it overrides what is below."""

    def __init__(self):
        self.rules = []      # (rule, literals, referenced models)
        self.lit, self.rule, self.text = {}, {}, {}

    def set_rule(self, r, value):
        for x, lits, refs in self.rules:
            if x is r:
                self.rule[id(r)] = value
                for e in lits:
                    self.lit[id(e)] = value
                for t, resolves in refs:
                    if resolves():
                        self.set_rule(t, value)


def build(h, named, own):
    """Three rules: r -> s -> t, each with a literal; r and s refer to the next one by object or by name."""
    m = Model()
    g = jsgf.Grammar("g", case_sensitive=h.bool("g.cs"))
    nxt = None
    rules = []
    for name in "tsr":
        text = h.string("lit " + name, 1, 1, LETTERS)
        e = jsgf.Literal(text, own and h.bool("lit %s.cs" % name))
        m.text[id(e)] = text
        tree, refs = e, []
        if nxt is not None:
            if named:
                ref = jsgf.NamedRuleRef(nxt.name)
            else:
                ref = jsgf.RuleRef(nxt)
            tree = jsgf.Sequence(e, jsgf.OptionalGrouping(ref))
        cs = not named and h.bool("rule %s.cs" % name)
        r = jsgf.Rule(name, True, tree, cs)
        if nxt is not None:
            t = nxt
            refs.append((t, (lambda t=t, r=r: t.grammar is g and r.grammar is g) if named else (lambda: True)))
        m.rules.append((r, [e], refs))
        m.set_rule(r, cs)
        rules.append((r, e))
        nxt = r
    return m, g, rules


def observe(h, m, g, gcs, rules, speech=None):
    h.check(g.case_sensitive == gcs, "the case sensitivity of the grammar is wrong")
    for r, e in rules:
        h.check(r.case_sensitive == m.rule[id(r)], "the case sensitivity of a rule is wrong")
        h.check(e.case_sensitive == m.lit[id(e)], "the case sensitivity of a literal is wrong")


def history(named, nops, ops, own=False, nwords=2, pre=False):
    def fn(h):
        m, g, rules = build(h, named, own)
        gcs, other = g.case_sensitive, jsgf.Grammar("o", case_sensitive=True)
        if named:
            first = h.choose(3, "first")
            for i in range(3):
                g.add_rule(rules[(first + i) % 3][0])
            # Which rules the order of addition affects is not specified.
            gcs = h.bool("start")
            g.case_sensitive = gcs
            for r, e in rules:
                m.set_rule(r, gcs)
        if pre:
            # some of the rules are in the grammar already, some in another one
            for r, e in rules:
                where = h.choose(3, "grammar of " + r.name)
                if where:
                    (g if where == 1 else other).add_rule(r)
                    m.set_rule(r, gcs if where == 1 else other.case_sensitive)
        elif h.bool("match first"):
            rules[-1][0].matches("a b")
        for i in range(nops):
            op = h.pick(ops, "op%d" % i)
            if op == "grammar":
                v = h.bool("v%d" % i)
                g.case_sensitive = v
                gcs = v
                for r in g.rules:
                    m.set_rule(r, v)
            else:
                r, e = rules[h.choose(3, "which%d" % i)]
                if op == "rule":
                    v = h.bool("v%d" % i)
                    r.case_sensitive = v
                    m.set_rule(r, v)
                elif op == "literal":
                    v = h.bool("v%d" % i)
                    e.case_sensitive = v
                    m.lit[id(e)] = v
                elif op == "add":
                    if r.grammar is None:
                        g.add_rule(r)
                        m.set_rule(r, gcs)
        observe(h, m, g, gcs, rules)
        # what the literals compile to, generate and match
        out, words = [], []
        top = [x for x in rules if x[0].name == "r"][0]
        for r, e in rules:
            cs = m.lit[id(e)]
            t = m.text[id(e)] if cs else m.text[id(e)].lower()
            h.check(e.text == t and e.compile() == t and e.generate() == t, "the text of a literal has the wrong case")
            words.append((t, cs))
        words.reverse()
        n = 1 + h.choose(nwords, "words")
        speech = [h.string("s%d" % i, 1, 1, LETTERS) for i in range(n)]
        want = h.and_(*[(s == t if cs else s.lower() == t) for s, (t, cs) in zip(speech, words)])
        got = top[0].matches(" ".join(speech))
        h.observe("matched", got)
        h.check(h.and_(h.implies(want, got), h.implies(got, want)), "matching does not respect the case sensitivity of a literal")
        h.reach("matched" if got else "unmatched")
    return fn


def flat(nops):
    """Public and private rules that nothing references, some added to the grammar and some not."""
    def fn(h):
        g = jsgf.Grammar("g", case_sensitive=h.bool("g.cs"))
        gcs, rules = g.case_sensitive, []
        for i in range(2):
            cs = h.bool("r%d.cs" % i)
            lits = [jsgf.Literal("aB"), jsgf.Literal("Cd")]
            r = jsgf.Rule("r%d" % i, h.bool("r%d.visible" % i), jsgf.Sequence(lits[0], jsgf.OptionalGrouping(lits[1])), cs)
            rules.append([r, cs, lits, [cs, cs]])

        def put(x, v):
            x[1], x[3] = v, [v, v]
        for i in range(nops):
            k = h.choose(4, "op%d" % i)
            x = rules[h.choose(2, "which%d" % i)] if k else None
            if k == 3:
                if x[0].grammar is None:
                    g.add_rule(x[0])
                    put(x, gcs)
                continue
            v = h.bool("v%d" % i)
            if k == 0:
                g.case_sensitive = gcs = v
                for x in rules:
                    if x[0].grammar is g:
                        put(x, v)
            elif k == 1:
                x[0].case_sensitive = v
                put(x, v)
            else:
                x[2][1].case_sensitive = v
                x[3][1] = v
        h.check(g.case_sensitive == gcs, "the case sensitivity of the grammar is wrong")
        for r, cs, lits, lcs in rules:
            h.check(r.case_sensitive == cs, "the case sensitivity of a rule is wrong")
            texts = [t if c else t.lower() for t, c in zip(("aB", "Cd"), lcs)]
            h.check([e.case_sensitive for e in lits] == lcs, "the case sensitivity of a literal is wrong")
            h.check([e.text for e in lits] == texts, "the text of a literal has the wrong case")
            h.check(r.compile().endswith("<%s> = %s [%s];" % (r.name, texts[0], texts[1])), "compiled text has the wrong case")
            h.check(r.matches("aB Cd"), "a rule does not match its text as written")
            h.check(r.matches("ab cd") == (not any(lcs)), "matching does not respect the case sensitivity of a literal")
        h.reach("checked")
    return fn


def trees(budget):
    """Every literal of a tree gets the case sensitivity of its rule."""
    def fn(h):
        inner_rules = []

        def ref(g, name):
            r = jsgf.PrivateRule("x" + name, g.tree() if g.left > 0 else jsgf.Literal("Z"))
            inner_rules.append(r)
            return jsgf.RuleRef(r)
        t = Gen(h, budget, leaves=("lit", "ref", "null"), kids=2, ref=ref, text=lambda g, n: "Aa")
        e = t.tree()
        cs = h.bool("cs")
        r = jsgf.PublicRule("r", e, case_sensitive=cs)
        v = cs
        if h.bool("set"):
            v = h.bool("v")
            r.case_sensitive = v
        lits = [x for x in t.nodes if isinstance(x, jsgf.Literal)] + [x.expansion for x in inner_rules if isinstance(x.expansion, jsgf.Literal)]
        h.check(all(x.case_sensitive == v for x in lits), "a literal does not have the case sensitivity set on the rule")
        h.check(all(x.case_sensitive == v for x in inner_rules), "a referenced rule does not have the case sensitivity set on the rule")
        text = e.compile()
        h.check(("A" in text) == (v and any(x.text == "Aa" for x in lits) and
                                 any(x in own(e) and x.text == "Aa" for x in lits)), "compiled text has the wrong case")
        h.reach("checked")
    return fn


def own(e):
    out = [e]
    if not isinstance(e, jsgf.NamedRuleRef):
        for c in e.children:
            out += own(c)
    return out


def special(h):
    """Characters that are several characters in another case, and others that are not ASCII."""
    c = SPECIAL[h.choose(len(SPECIAL), "char")]
    before = h.string("before", 0, 1, LETTERS)
    after = h.string("after", 0, 1, LETTERS)
    word = before + c + after
    cs = h.bool("cs")
    more = h.bool("more")
    e = jsgf.Sequence(word, "x") if more else jsgf.Literal(word)
    r = jsgf.PublicRule("r", e, case_sensitive=cs)
    forms = (word, before + c.upper() + after, before + c.lower() + after, before.upper() + c + after)
    k = h.choose(4, "form")
    s = forms[k]
    other = h.bool("other")
    if other:
        s = s + h.string("extra", 1, 1, LETTERS)
    got = r.matches(s + " x" if more else s)
    h.observe("matched", got)
    if other:
        h.check(not got, "a word that continues matches")
        h.reach("longer")
    elif cs:
        h.check(got == (s == word), "case-sensitive matching with characters that are not ASCII")
        h.reach("sensitive")
    else:
        h.check(got, "the same word in another case does not match")
        h.reach("insensitive")
        h.check(r.matches(r.generate()), "generated text does not match")
        if not more:
            h.check(r.expansion.current_match is not None and r.expansion.matching_slice == slice(0, len(r.generate())),
                    "match data of a word with characters that are not ASCII")


def parts(h):
    """find_matching_part finds what matches, whatever the case sensitivity of the parts of the rule."""
    a = jsgf.Literal(h.string("a", 1, 1, LETTERS))
    b = jsgf.Literal(h.string("b", 1, 1, LETTERS))
    s = jsgf.PrivateRule("s", b)
    ref = h.bool("ref")
    r = jsgf.PublicRule("r", jsgf.Sequence(a, jsgf.RuleRef(s) if ref else b), case_sensitive=h.bool("cs"))
    k = h.choose(3, "set")
    if k == 1:
        b.case_sensitive = h.bool("b.cs")
    elif k == 2 and ref:
        s.case_sensitive = h.bool("s.cs")
    words = [h.string("w%d" % i, 1, 1, LETTERS) for i in range(2 + h.choose(2, "words"))]
    hits = [h.and_(*[x == e.text if e.case_sensitive else x.lower() == e.text for x, e in zip(words[i:], (a, b))])
            for i in range(len(words) - 1)]
    got = r.find_matching_part(" ".join(words))
    h.observe("part", got)
    if h.or_(*hits):
        h.check(got is not None, "no part of the speech matches although one does")
        h.check(any(h and got.lower() == (words[i] + " " + words[i + 1]).lower() for i, h in enumerate(hits)),
                "a part of the speech is returned that does not match")
        h.reach("part")
    else:
        h.check(got is None, "a part of the speech matches that is not in the language")
        h.reach("none")


Q, T = ("quick",), ("thorough",)
B = Q + T
R = ("matched", "unmatched")
OPS = ("grammar", "rule", "literal", "add")
HARNESSES = [
    dict(name="objects1", fn=history(False, 1, OPS), tiers=B, reach=R,
         bounds="3 rules that reference each other by object, symbolic letters of both cases, 1 change of the grammar, a rule or a literal, or rule added; speech of up to 2 words"),
    dict(name="named1", fn=history(True, 1, ("grammar", "rule", "literal"), nwords=3), tiers=B, reach=R,
         bounds="3 rules of a grammar, added in 3 orders, that reference each other by name, 1 change, speech of up to 3 words"),
    dict(name="objects1-own", fn=history(False, 1, OPS, True, 3), tiers=T, reach=R, bounds="as objects1 with any case sensitivity of new literals, speech of up to 3 words"),
    dict(name="objects2", fn=history(False, 2, OPS), tiers=T, reach=R, bounds="as objects1 with 2 changes"),
    dict(name="named2", fn=history(True, 2, ("grammar", "rule", "literal"), nwords=3), tiers=T, reach=R, bounds="as named1 with 2 changes"),
    dict(name="objects1-added", fn=history(False, 1, ("grammar", "rule"), nwords=1, pre=True), tiers=B, reach=R,
         bounds="3 rules that reference each other by object, each in one of two grammars or none, 1 change of a grammar or rule; speech of 1 word"),
    dict(name="flat3", fn=flat(3), tiers=B, reach=("checked",),
         bounds="2 public or private rules without references, each of 2 literals, and 3 changes of the grammar, a rule, or a literal, or rule additions"),
    dict(name="flat4", fn=flat(4), tiers=T, reach=("checked",), bounds="as flat3 with 4 changes"),
    dict(name="trees4", fn=trees(4), tiers=B, reach=("checked",), bounds="trees of up to 4 nodes with references to rules"),
    dict(name="trees5", fn=trees(5), tiers=T, reach=("checked",), bounds="trees of up to 5 nodes with references to rules"),
    dict(name="special", fn=special, tiers=B, reach=("longer", "sensitive", "insensitive"),
         bounds="8 characters that are not ASCII between up to 2 symbolic letters, in 4 cases each"),
    dict(name="parts", fn=parts, tiers=B, reach=("part", "none"), bounds="sequences of 2 literals or references, 2 or 3 words of one symbolic letter"),
]
OUTSIDE = ["rules that reference themselves", "case sensitivity of expansions that are added to a rule later on"]
