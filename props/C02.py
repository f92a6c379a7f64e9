"""C02: a compiled rule or grammar parses back to an equivalent rule or grammar."""
from pyparsing import ParseException
import jsgf
from jsgf import parse_rule_string, parse_grammar_string, valid_grammar
from props.gen import Gen, WORD
from props.C15 import attempt
from props.C19 import Files
from props.refparse import nf_of, nf_eq, show

NAME = "abz09_+-:,=|/\\()[]@#%!^&~$"
HEADER = "aB-_'19"


def no_comment(h, s):
    for i in range(len(s) - 1):
        h.assume(h.not_(h.and_(s[i] == "/", h.isin(s[i + 1], "/*"))))


def a_name(h, label, n, chars=NAME):
    s = h.string(label, 1, n, chars)
    no_comment(h, s)
    return s


def qualified(h, label, parts, n=1):
    k = 1 + h.choose(parts, label + ".parts")
    s = a_name(h, label + ".0", n)
    for i in range(1, k):
        s = s + "." + a_name(h, "%s.%d" % (label, i), n)
    return s


def same_rule(h, want, got):
    return h.and_(want.name == got.name, want.visible == got.visible,
                  nf_eq(h, nf_of(want.expansion), nf_of(got.expansion)))


def rule_names(n):
    def fn(h):
        name = h.string("name", 1, n, NAME + ";")
        no_comment(h, name)
        vis = h.bool("vis")
        r = jsgf.Rule(name, vis, jsgf.Sequence("x", jsgf.NamedRuleRef("r")))
        text = r.compile()
        h.observe("text", text)
        h.check(text.startswith("public ") == vis, "compiled visibility")
        got = parse_rule_string(text)
        h.check(same_rule(h, r, got), "rule changed by compiling and parsing it")
        h.check(got.active, "parsed rule is not active")
        h.reach("ok")
    return fn


def rule_trees(budget):
    def fn(h):
        g = Gen(h, budget, leaves=("lit", "ref", "null"))
        r = jsgf.Rule("r", h.bool("vis"), g.tree())
        text = r.compile()
        h.observe("text", text)
        got = parse_rule_string(text)
        h.check(same_rule(h, r, got), "rule changed by compiling and parsing it")
        h.reach("ok")
    return fn


def same_grammar(h, g, got):
    h.check(got.name == g.name, "grammar name")
    h.check(got.jsgf_version == g.jsgf_version, "version in the header")
    h.check(got.charset_name == g.charset_name, "character set in the header")
    h.check(got.language_name == g.language_name, "language in the header")
    h.check(len(got.imports) == len(g.imports), "number of imports")
    for a, b in zip(g.imports, got.imports):
        h.check(a.name == b.name, "imports")
    h.check(len(got.rules) == len(g.rules), "number of rules")
    for a, b in zip(g.rules, got.rules):
        h.check(same_rule(h, a, b), "a rule of the grammar")
        h.check(b.grammar is got, "parsed rule is in the grammar")


def back(h, g):
    text = g.compile()
    h.observe("text", text)
    got = parse_grammar_string(text)
    same_grammar(h, g, got)
    h.check(valid_grammar(text), "compiled grammar is not valid")
    same_grammar(h, g, parse_grammar_string(got.compile()))
    h.reach("ok")


def header(h):
    g = jsgf.Grammar(qualified(h, "name", 3))
    g.jsgf_version = h.string("v1", 1, 2, "0123456789") + "." + \
        h.string("v2", 0, 1, "0123456789")
    k = h.choose(4, "header")
    if k == 1:
        g.language_name = h.string("lang2", 2, 2, HEADER)
    elif k == 2:
        g.charset_name = h.string("charset", 1, 3, HEADER)
        h.assume(len(g.charset_name) != 2)
    elif k == 3:
        g.charset_name = h.string("charset", 1, 3, HEADER)
        g.language_name = h.string("lang", 1, 2, HEADER)
    g.add_rule(jsgf.Rule("r", True, "x"))
    back(h, g)


def statements(n_imports, n_rules):
    def fn(h):
        g = jsgf.Grammar("g")
        for i in range(h.choose(n_imports + 1, "imports")):
            s = a_name(h, "i%d.a" % i, 1) + "." + a_name(h, "i%d.b" % i, 1)
            if h.bool("i%d.star" % i):
                s = s + ".*"
            for j in g.imports:
                h.assume(j.name != s)
            g.add_import(jsgf.Import(s))
        for i in range(1 + h.choose(n_rules, "rules")):
            s = a_name(h, "r%d" % i, 1, NAME + ";")
            for r in g.rules:
                h.assume(r.name != s)
            g.add_rule(jsgf.Rule(s, h.bool("r%d.vis" % i),
                                 h.string("r%d.text" % i, 1, 1, WORD)))
        back(h, g)
    return fn


def grammar_trees(budget):
    def fn(h):
        g = jsgf.Grammar("g")
        for i in range(2):
            t = Gen(h, budget, leaves=("lit", "ref"), kids=2)
            g.add_rule(jsgf.Rule("r%d" % i, h.bool("vis%d" % i), t.tree()))
        back(h, g)
    return fn


# ---- layouts of grammar text --------------------------------------------------
def layout(n):
    """Statements in any order, with either line end: only the documented order is a grammar."""
    def fn(h):
        toks = []
        kinds = ("header", "name", "import", "public", "private", "comment")
        text = ""
        for i in range(n):
            k = h.pick(kinds, "k%d" % i)
            toks.append(k)
            c = h.string("c%d" % i, 1, 1, "abc")
            body = {"header": "#JSGF V1.0 UTF-8 en", "name": "grammar g" + c,
                    "import": "import <g." + c + ">",
                    "public": "public <" + c + "> = x " + c,
                    "private": "<" + c + "> = y",
                    "comment": "/* public <z> = z; */"}[k]
            if k != "comment":
                # (a rule ended by a newline only: see newline_rules)
                ends = (";", ";\n") if k in ("public", "private") else \
                    (";", "\n", ";\n")
                body = body + h.pick(ends, "e%d" % i)
            text = text + body
            toks[-1] = (k, c, body[-1] if body[-2] != ";" else ";")
        want = expected_layout(h, toks)
        h.observe("text", text)
        ok = valid_grammar(text)
        h.observe("ok", ok)
        if want is None:
            return
        h.check(ok == want, "wrong verdict on a grammar")
        if want:
            g = parse_grammar_string(text)
            h.check(g.name == "g" + toks[[k for k, *_ in toks].index("name")][1], "name")
            imps = []
            for k, c, _ in toks:
                if k == "import" and not any(bool(c == d) for d in imps):
                    imps.append(c)
            h.check(len(g.imports) == len(imps), "imports")
            for a, c in zip(g.imports, imps):
                h.check(a.name == "g." + c, "imports")
            rules = []
            for k, c, _ in toks:
                if k in ("public", "private") and \
                        not any(bool(c == d) for _, d in rules):
                    rules.append((k, c))
            h.check(len(g.rules) == len(rules), "rules")
            for r, (k, c) in zip(g.rules, rules):
                h.check(h.and_(r.name == c, r.visible == (k == "public")), "rules")
                h.check(r.expansion.text == (("x " + c) if k == "public" else "y"),
                        "rule text")
            h.reach("valid")
        else:
            h.reach("invalid")
    return fn


def newline_rules(h):
    """Newlines end statements just as semicolons do."""
    full = h.bool("full")
    e0 = h.pick((";", "\n"), "e0")
    text = "#JSGF V1.0" + (" UTF-8 en" if full else "") + e0 + "grammar g" + \
        h.pick((";", "\n"), "e1")
    if h.bool("import"):
        text = text + "import <g.x>" + h.pick((";", "\n"), "e2")
    n = 1 + h.choose(2, "rules")
    ends = []
    for i in range(n):
        ends.append(h.pick((";", "\n"), "r%d" % i))
        text = text + h.pick(("public ", ""), "v%d" % i) + "<" + "ab"[i] + "> = x" + ends[-1]
    h.observe("text", text)
    ok = valid_grammar(text)
    h.check(ok, "a newline after a rule does not end it",
            sig="newline-rules" if ends[0] == "\n" and n > 1 else
            "newline-header" if e0 == "\n" and not full else None)
    h.reach("ok")


def comments(h):
    """A comment between any two tokens changes nothing."""
    e = h.pick((";", "\n"), "end")
    toks = ["#JSGF", " ", "V1.0", " ", "UTF-8", " ", "en", e,
            "grammar", " ", "g", e, "import", " ", "<", "g.x", ">", e,
            "public", " ", "<", "a", ">", "=", "x", ";",
            "<", "b", ">", "=", "(", "x", ")", ";"]
    i = h.choose(len(toks) + 1, "at")
    c = h.pick(("/* c */", "// c\n"), "comment")
    before, after = "".join(toks[:i]), "".join(toks[i:])
    if e == "\n" and i in (7, 11, 17) and c != "/* c */":
        return          # the comment takes the newline with it
    # Without a space a name goes on with the comment's slash.
    text = before + h.pick((" ", ""), "sp") + c + after
    if i > 0 and not text[len(before):].startswith(" ") and \
            toks[i - 1] in ("g", "<", "a", "b", "g.x"):
        return
    h.observe("text", text)
    if i < 7:
        return          # inside the header line: not specified
    sig = None
    if e == "\n" and i in (8, 12, 18):
        sig = "comment-after-newline"
    try:
        g = parse_grammar_string(text)
    except (ParseException, jsgf.GrammarError):
        g = None
    h.check(g is not None, "a comment makes a grammar invalid", sig=sig)
    h.check(g.name == "g" and len(g.imports) == 1 and g.imports[0].name == "g.x" and
            [(r.name, r.visible, nf_of(r.expansion)) for r in g.rules] ==
            [("a", True, ("lit", "x", ())), ("b", False, ("lit", "x", ()))],
            "a comment changes a grammar")
    h.reach("ok")


def from_file(h):
    """A file is parsed like its text."""
    nl = h.pick(("", " ", "\n", " \n\n"), "nl")
    g = "#JSGF V1.0;%sgrammar g;%s<r> = %s%s%s;%s<s> = b;%s" % (
        nl, nl, h.string("a", 1, 1, WORD), h.string("ws", 1, 1, " \n\t"), h.string("b", 1, 1, WORD), nl, nl)
    if h.bool("bad"):
        g = g.replace("grammar g", "grammar")
    with Files({"g.jsgf": g}) as fs:
        got, err = attempt(lambda: jsgf.parse_grammar_file("g.jsgf"))
        _, missing = attempt(lambda: jsgf.parse_grammar_file("h.jsgf"))
    want, werr = attempt(lambda: parse_grammar_string(g))
    h.check(fs.opened == ["g.jsgf"], "the file was not read")
    h.check(missing is not None and issubclass(missing, (IOError, OSError)), "parsing a file that does not exist does not fail")
    h.check(err is werr, "parsing a file fails unlike parsing its text, or the reverse")
    if err is not None:
        h.reach("invalid")
        return
    h.check(len(got.rules) == len(want.rules), "a file has other rules than its text")
    h.check(got.name == want.name and h.and_(*[same_rule(h, x, y) for x, y in zip(got.rules, want.rules)]),
            "a file is parsed unlike its text")
    h.reach("ok")


def expected_layout(h, toks):
    if any(k == "comment" for k, *_ in toks[:1]):
        return None             # comments before the header: not specified
    for a, b in zip(toks, toks[1:]):
        if b[0] == "comment" and a[0] != "comment" and a[2] == "\n":
            return None         # comments after a newline: see comments
    kinds = [k for k, *_ in toks if k != "comment"]
    if toks and toks[-1][0] == "comment":
        return None             # comments after the last rule: not specified
    order = {"header": 0, "name": 1, "import": 2, "public": 3, "private": 3}
    nums = [order[k] for k in kinds]
    if nums[:2] != [0, 1] or 0 in nums[1:] or 1 in nums[2:] or \
            nums != sorted(nums) or 3 not in nums:
        return False
    rules = [(k, c) for k, c, _ in toks if k in ("public", "private")]
    for i in range(len(rules)):
        for j in range(i):
            if bool(rules[i][1] == rules[j][1]) and rules[i][0] != rules[j][0]:
                return False    # two different rules of one name
    return True


R = ("ok",)
HARNESSES = [
    dict(name="rulenames3", fn=rule_names(3), tiers=("quick",), reach=R,
         bounds="rules with every name of 1..3 characters over %r, both visibilities" % (NAME + ";")),
    dict(name="rulenames4", fn=rule_names(4), tiers=("thorough",), reach=R,
         bounds="rules with every name of 1..4 characters over %r, both visibilities" % (NAME + ";")),
    dict(name="ruletrees3", fn=rule_trees(3), tiers=("quick",), reach=R,
         bounds="rules whose expansion has at most 3 nodes"),
    dict(name="ruletrees4", fn=rule_trees(4), tiers=("thorough",), reach=R,
         bounds="rules whose expansion has at most 4 nodes"),
    dict(name="header", fn=header, reach=R,
         bounds="grammar names of 1..3 parts, versions d[d].[d], no/2-letter language, character set, both (1..3 symbolic characters)"),
    dict(name="statements", fn=statements(2, 2), tiers=("quick",), reach=R,
         bounds="0..2 imports and 1..2 rules with symbolic names"),
    dict(name="statements3", fn=statements(2, 3), tiers=("thorough",), reach=R,
         bounds="0..2 imports and 1..3 rules with symbolic names"),
    dict(name="grammartrees2", fn=grammar_trees(2), tiers=("quick",), reach=R,
         bounds="two rules whose expansions have at most 2 nodes"),
    dict(name="grammartrees3", fn=grammar_trees(3), tiers=("thorough",), reach=R,
         bounds="two rules whose expansions have at most 3 nodes"),
    dict(name="newlines", fn=newline_rules, reach=R,
         bounds="grammars of 1..2 rules with ; or newline after each statement"),
    dict(name="comments", fn=comments, reach=R,
         bounds="one comment of either kind at every position of a grammar of 2 rules"),
    dict(name="file", fn=from_file, reach=("ok", "invalid"),
         bounds="files of a grammar of two rules with symbolic words and whitespace; the file system is a stand-in"),
    dict(name="layout4", fn=layout(4), tiers=("quick",), reach=("valid", "invalid"),
         bounds="every order of 4 statements (header, name, import, public rule, private rule, comment), each ended by ; or newline or both"),
    dict(name="layout5", fn=layout(5), tiers=("thorough",), reach=("valid", "invalid"),
         bounds="every order of 5 statements"),
]
OUTSIDE = [
    "names that contain the comment markers // and /*",
    "header values that the header line cannot tell apart (a 2-character character set without language, a longer language without character set)",
]
