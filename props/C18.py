"""C18: compiled grammars contain the active rules, root grammars one public root rule."""
import io
import jsgf
from jsgf import CompilationError, GrammarError, parse_grammar_string
from props.C02 import a_name, NAME
from props.C15 import attempt
from props.refparse import nf_of, nf_eq

WORDS = ("v", "w", "x")


def a_grammar(h, root, n, imports=0, names=None, bodies=("word", "ref", "tag", "alt"), fields=False, rootname=False):
    g = jsgf.RootGrammar(name="g") if root else jsgf.Grammar("g")
    if fields and h.bool("header"):
        g.charset_name, g.language_name = "UTF-8", "en"
    for i in range(h.choose(imports + 1, "imports")):
        g.add_import(jsgf.Import(h.string("g%d" % i, 1, 1, "ab") + "." + h.string("i%d" % i, 1, 1, "abc*")))
    rules = []
    for i in range(h.choose(n, "rules") + 1):
        if names:
            name = names(h, i)
            for r in rules:
                h.assume(r.name != name)
        else:
            name = ("rr0", "r1", "rrr2")[i]  # in no particular order
        if root and not rootname:
            h.assume(name != "root")
        kind = h.pick(bodies if i else [b for b in bodies if b != "ref"], "r%d.kind" % i)
        w = WORDS[i]
        if kind == "word":
            e = w
        elif kind == "ref":
            e = jsgf.Sequence(w, jsgf.NamedRuleRef(rules[h.choose(i, "r%d.to" % i)].name))
        elif kind == "tag":
            e = jsgf.Literal(w)
            e.tag = "t"
        elif kind == "alt":
            e = jsgf.AlternativeSet(w, jsgf.OptionalGrouping("y"))
        elif kind == "bare":
            e = jsgf.Sequence()
        elif kind == "bad":
            e = jsgf.Literal(w)
            e.text = ""
        r = jsgf.Rule(name, h.bool("r%d.visible" % i), e)
        rules.append(r)
        g.add_rule(r)
        r.bad = kind == "bad"
    for i, r in enumerate(rules):
        if h.bool("r%d.off" % i):
            r.disable()
    return g, rules


def snapshot(g):
    return [(r, r.name, r.visible, r.active, r.grammar) for r in g.rules], [i.name for i in g.imports], g.name


def same_state(a, b):
    return len(a[0]) == len(b[0]) and all(
        x[0] is y[0] and x[1] == y[1] and x[2] == y[2] and x[3] == y[3] and x[4] is y[4]
        for x, y in zip(a[0], b[0])) and a[1] == b[1] and a[2] == b[2]


def run(h, g, op):
    before = snapshot(g)
    text, err = attempt(op)
    h.check(same_state(before, snapshot(g)), "compiling a grammar changed it")
    return text, err


def contents(h, g, text, want, what):
    """The parsed text has the statements of g and the rules (name, visible, nf) in order."""
    h.observe("text", text)
    if not want:
        h.check("<r" not in text, what + " has a rule that is not enabled")
        return None
    got = parse_grammar_string(text)
    h.check(got.name == g.name and got.jsgf_version == g.jsgf_version and got.charset_name == g.charset_name and
            got.language_name == g.language_name, what + " has another header")
    h.check([i.name for i in got.imports] == [i.name for i in g.imports], what + " has other imports")
    h.check(len(got.rules) == len(want), what + " has too few or too many rules")
    for r, (name, visible, nf) in zip(got.rules, want):
        h.check(h.and_(r.name == name, r.visible == visible, nf_eq(h, nf_of(r.expansion), nf)),
                what + " has another rule, or in another order")
    return got


def root_nf(names):
    alts = jsgf.AlternativeSet(*[jsgf.NamedRuleRef(x) for x in names])
    return nf_of(alts)


def plain(h, g, rules):
    text, err = run(h, g, lambda: jsgf.Grammar.compile(g))
    on = [r for r in rules if r.active]
    if any(r.bad for r in on):
        h.check(err is CompilationError, "a literal without text was compiled")
        return
    h.check(err is None, "compiling a grammar failed")
    contents(h, g, text, [(r.name, r.visible, nf_of(r.expansion)) for r in on], "the compiled grammar")
    h.reach("compiled")


def as_root(h, g, rules, op):
    text, err = run(h, g, op)
    on = [r for r in rules if r.active]
    public = [r for r in on if r.visible]
    if any(r.bad for r in on) and public:
        h.check(err is CompilationError, "a literal without text was compiled")
        h.reach("failed")
        return None
    h.check(err is None, "compiling a root grammar failed")
    if not public:
        # Nothing can be spoken; the rules may be left out.
        h.observe("text", text)
        h.reach("empty")
        return None
    want = [("root", True, root_nf([r.name for r in public]))]
    want += [(r.name, False, nf_of(r.expansion)) for r in on]
    got = contents(h, g, text, want, "the compiled root grammar")
    h.check(run(h, g, op)[0] == text, "compiling a root grammar twice gives other results")
    h.reach("compiled")
    return got


def structure(n, root, **kw):
    def fn(h):
        g, rules = a_grammar(h, root, n, **kw)
        if not root and h.bool("plain"):
            plain(h, g, rules)
        elif root:
            as_root(h, g, rules, g.compile)
        else:
            as_root(h, g, rules, g.compile_as_root_grammar)
    return fn


def matching(n, m):
    """The compiled root grammar matches what some active public rule matches."""
    def fn(h):
        g, rules = a_grammar(h, h.bool("root"), n, bodies=("word", "ref", "alt"))
        on = [r.active for r in rules]
        # References to disabled rules do not resolve in the compiled grammar.
        for r in rules:
            if r.active:
                h.assume(all(x.active for x in r.dependencies))
        got = as_root(h, g, rules, g.compile_as_root_grammar)
        speech = h.string("speech", 1, m, "vwxy ")
        matched = [r for r in rules if r.visible and r.matches(speech)]
        found = g.find_matching_rules(speech)
        h.check(len(found) == len(matched) and all(x is y for x, y in zip(found, matched)),
                "the rules found are not the visible rules that match")
        h.check(on == [r.active for r in rules], "matching enabled or disabled a rule")
        if got is None:
            h.check(not matched, "a rule matches that is not in the compiled root grammar")
            return
        h.check((len(got.find_matching_rules(speech)) > 0) == (len(matched) > 0),
                "the compiled root grammar does not match what its rules match")
        h.reach("matched" if matched else "unmatched")
    return fn


def root_names(h):
    """Rules called root cannot be in root grammars."""
    name = "roo" + h.string("c", 1, 1, "rstu")
    visible = h.bool("visible")
    r = jsgf.Rule(name, visible, "x")
    first = h.bool("first")
    if first:
        g, err = attempt(lambda: jsgf.RootGrammar([r]))
    else:
        g = jsgf.RootGrammar()
        h.check(g.name == "root" and g.rules == [], "a root grammar starts without rules")
        many = h.bool("many")
        _, err = attempt(lambda: g.add_rules(r) if many else g.add_rule(r))
    if name == "root":
        h.check(err is GrammarError, "a rule called root was added to a root grammar")
        if not first:
            h.check(g.rules == [] and r.grammar is None, "a refused rule was added")
        h.reach("refused")
    else:
        h.check(err is None and len(g.rules) == 1 and g.rules[0] is r and r.grammar is g, "a rule was not added to a root grammar")
        h.reach("added")


def named_root(h):
    """A rule called root in an ordinary grammar."""
    g = jsgf.Grammar("g")
    r = jsgf.Rule("roo" + h.string("c", 1, 1, "stu"), h.bool("visible"), "x")
    s = jsgf.PublicRule("s", "y")
    for x in ((r, s) if h.bool("order") else (s, r)):
        g.add_rule(x)
    text, err = run(h, g, g.compile_as_root_grammar)
    if err is not None:
        h.check(err is GrammarError and r.name == "root", "compiling a root grammar failed")
        return
    h.observe("text", text)
    got, err = attempt(lambda: parse_grammar_string(text))
    h.check(err is None, "the compiled root grammar of a grammar with a rule called root is not a grammar",
            sig="rule-called-root")
    h.reach("ok")


def with_header(h):
    """compile_grammar compiles with the values of the header that are given."""
    root = h.bool("RootGrammar")
    g, rules = a_grammar(h, root, 1, bodies=("word",), imports=1, fields=True)
    kw = {}
    for name in ("charset_name", "language_name", "jsgf_version"):
        if h.bool(name):
            kw[name] = h.string(name + ".value", 0, 2, "ab") if name != "jsgf_version" else "2." + h.string("v", 1, 1, "0123")
    text = g.compile_grammar(**kw) if h.bool("by name") or len(kw) < 3 else \
        g.compile_grammar(kw["charset_name"], kw["language_name"], kw["jsgf_version"])
    want = dict(charset_name="UTF-8", language_name="en", jsgf_version="1.0")
    want.update(kw)
    h.observe("text", text)
    for name in want:
        h.check(getattr(g, name) == want[name], "compile_grammar does not set the header")
    line = "#JSGF V" + want["jsgf_version"]
    for name in ("charset_name", "language_name"):
        if len(want[name]) > 0:
            line = line + " " + want[name]
    h.check(text == g.compile() and text.startswith(line + ";\n"), "compile_grammar compiles something else")
    h.check(g.jsgf_header == line + ";\n", "the header is another one")
    h.reach("compiled")


class FakeFile:
    def __init__(self):
        self.parts, self.closed = [], False

    def write(self, s):
        self.parts.append(s)
        return len(s)

    def writelines(self, lines):
        for x in lines:
            self.write(x)

    def close(self):
        self.closed = True

    def flush(self):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *args):
        self.closed = True


def to_file(h):
    """compile_to_file writes what the compile methods return."""
    root = h.bool("RootGrammar")
    g, rules = a_grammar(h, root, 2, names=lambda h, i: a_name(h, "r%d.name" % i, 1, NAME), bodies=("word", "ref"), imports=1)
    opened = []

    def fake(path, mode="r", *args, **kw):
        f = FakeFile()
        opened.append((path, mode, f))
        return f
    import jsgf.grammars as m
    how = h.choose(3, "how")
    old = io.open
    m.open = fake
    io.open = fake
    try:
        if how == 0:
            g.compile_to_file("out")
        elif how == 1:
            g.compile_to_file("out", True)
        else:
            g.compile_to_file("out", compile_as_root_grammar=False)
    finally:
        del m.open
        io.open = old
    h.check(len(opened) == 1 and opened[0][0] == "out" and opened[0][1][0] == "w", "compile_to_file does not write the file")
    f = opened[0][2]
    h.check(f.closed, "compile_to_file leaves the file open")
    text = "".join(f.parts)
    h.observe("text", text)
    want = g.compile_as_root_grammar() if root or how == 1 else g.compile()
    h.check(text == want, "the file does not have the text of the compiled grammar")
    h.reach("written")


Q, T = ("quick",), ("thorough",)
B = Q + T
WHAT = "public or private, enabled or not"
HARNESSES = [
    dict(name="structure2", fn=structure(2, False, imports=1, bodies=("word", "ref", "tag", "bare", "bad"), fields=True), tiers=B,
         reach=("compiled", "empty", "failed"),
         bounds="grammars of up to 2 rules (" + WHAT + "; words, tags, references, childless or not compilable), header fields or not, up to one import; compiled as such and as root grammar"),
    dict(name="imports3", fn=structure(1, False, imports=3, bodies=("word",), fields=True), tiers=B, reach=("compiled", "empty"),
         bounds="grammars of a rule and up to 3 imports with any of 2 grammar names and of 4 rule names, * too, repeated or not and in any order"),
    dict(name="structure3", fn=structure(3, False, bodies=("word", "ref")), tiers=B, reach=("compiled", "empty"),
         bounds="grammars of up to 3 rules (" + WHAT + "; words and references)"),
    dict(name="structure3-all", fn=structure(3, False, imports=1, bodies=("word", "ref", "tag", "bare", "bad")), tiers=T, reach=("compiled", "empty", "failed"),
         bounds="as structure2 with 3 rules"),
    dict(name="root2", fn=structure(2, True, bodies=("word", "ref", "bad"), imports=1), tiers=B, reach=("compiled", "empty", "failed"),
         bounds="root grammars of up to 2 rules and one import"),
    dict(name="names", fn=structure(2, False, names=lambda h, i: a_name(h, "r%d.name" % i, 1, NAME), bodies=("word", "ref")), tiers=B,
         reach=("compiled", "empty"), bounds="up to 2 rules with names of one symbolic character"),
    dict(name="names2", fn=structure(2, False, names=lambda h, i: a_name(h, "r%d.name" % i, 2, NAME), bodies=("word",)), tiers=T,
         reach=("compiled", "empty"), bounds="up to 2 rules with names of one or two symbolic characters"),
    dict(name="matching", fn=matching(2, 3), tiers=B, reach=("matched", "unmatched"),
         bounds="grammars and root grammars of up to 2 rules, speech of up to 3 symbolic characters"),
    dict(name="matching3", fn=matching(3, 4), tiers=T, reach=("matched", "unmatched"),
         bounds="grammars and root grammars of up to 3 rules, speech of up to 4 symbolic characters"),
    dict(name="root-names", fn=root_names, tiers=B, reach=("refused", "added"), bounds="a rule called roo and a symbolic character, both ways to add it"),
    dict(name="named-root", fn=named_root, tiers=B, reach=("ok",), bounds="ordinary grammars with a rule called roo and a symbolic character"),
    dict(name="with-header", fn=with_header, tiers=B, reach=("compiled",),
         bounds="grammars of a rule, values of the header of up to 2 symbolic characters given or not"),
    dict(name="to-file", fn=to_file, tiers=B, reach=("written",), bounds="grammars of up to 2 rules with names of one symbolic character, every way to call compile_to_file; the file is a stand-in"),
]
OUTSIDE = ["what is written for a root grammar without active public rules", "references to disabled rules",
           "the encoding and the errors of the file system"]
