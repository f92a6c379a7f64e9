"""C19: names of rules and imports resolve to the right rules."""
import io
import os
import jsgf
import jsgf.parser
from jsgf import GrammarError, JSGFImportError, Import, NamedRuleRef
from props.C15 import attempt

SUFFIXES = (".jsgf", ".jgram")


class TextFile:
    """A file open for reading, whose text may be symbolic."""

    def __init__(self, text):
        self.text, self.closed = text, False

    def read(self, size=-1):
        if size is None or size < 0:
            size = len(self.text)
        out, self.text = self.text[:size], self.text[size:]
        return out

    def readline(self):
        i = self.text.find("\n")
        return self.read(len(self.text) if i < 0 else i + 1)

    def readlines(self, hint=-1):
        out = []
        while len(self.text) > 0:
            out.append(self.readline())
        return out

    def __iter__(self):
        return iter(self.readlines())

    def close(self):
        self.closed = True

    def __enter__(self):
        return self

    def __exit__(self, *args):
        self.closed = True


class Files:
    """Grammar files that exist only for the code under test."""

    def __init__(self, files):
        self.files = files
        self.opened = []

    def isfile(self, path):
        for k in self.files:
            if path == k:
                return True
        return False

    def open(self, path, mode="r", *args, **kw):
        for k in self.files:
            if path == k:
                self.opened.append(k)
                return TextFile(self.files[k])
        raise IOError("no such file")

    def __enter__(self):
        self.old = os.path.isfile, os.path.exists, io.open
        os.path.isfile = os.path.exists = self.isfile
        io.open = jsgf.parser.open = self.open
        return self

    def __exit__(self, *args):
        os.path.isfile, os.path.exists, io.open = self.old
        del jsgf.parser.open


def source(name, rules, imports=()):
    """Text of a grammar; rules: (name, public, expansion)."""
    return "#JSGF V1.0;\ngrammar %s;\n%s%s" % (
        name, "".join("import <%s>;\n" % i for i in imports),
        "".join("%s<%s> = %s;\n" % ("public " if p else "", n, e) for n, p, e in rules))


def path_of(name, ext=".jsgf", sub=True):
    return (name.replace(".", "/") if sub else name) + ext


class Lib:
    """The grammars that can be imported: full name -> rules (name, public)."""

    def __init__(self, rules):
        self.rules = rules

    def files(self):
        return {path_of(g): source(g, [(n, p, "w") for n, p in rs]) for g, rs in self.rules.items()}

    def public(self, g):
        return [n for n, p in self.rules[g] if p]

    def find(self, full):
        """(grammar, rule) of a public rule with this full name."""
        for g in self.rules:
            for n in self.public(g):
                if full == g + "." + n:
                    return g, n
        return None


def is_rule(h, x, key):
    """x is the rule key=(grammar, name)."""
    return isinstance(x, jsgf.Rule) and x.grammar is not None and x.grammar.name == key[0] and x.name == key[1]


# ---- Import.resolve -------------------------------------------------------------
def resolve_import(h):
    """A symbolic import name against the files."""
    lib = Lib({"g": [("r", h.bool("g.r")), ("s", True)], "a.g": [("r", h.bool("ag.r")), ("x", False)], "b.a.g": [("r", True)]})
    name = h.string("name", 3, 7, "abgrsx.*")
    if not Import.valid(name):
        return
    imp = Import(name)
    memo = {}
    with Files(lib.files()) as fs:
        got, err = attempt(lambda: imp.resolve(memo))
        h.observe("error", None if err is None else err.__name__)
        i = name.rfind(".")
        g = None
        for k in lib.rules:
            if name[:i] == k:
                g = k
        last = name[i + 1:]
        if g is None:
            h.check(err is JSGFImportError, "importing from a grammar that does not exist does not fail")
            h.check(not fs.opened, "a file of another grammar was read")
            h.reach("missing")
        elif last == "*":
            h.check(err is None and len(got) == len(lib.public(g)) and
                    all(is_rule(h, x, (g, n)) for x, n in zip(got, lib.public(g))),
                    "a wildcard does not import the public rules of the grammar in order")
            h.reach("wildcard")
        elif not any(last == n for n in lib.public(g)):
            h.check(err is JSGFImportError, "a rule that is private or does not exist was imported")
            h.reach("private")
        else:
            h.check(err is None and is_rule(h, got, (g, last)), "the wrong rule was imported")
            h.reach("single")
        if g is not None:
            h.check(fs.opened == [path_of(g)], "the file of the grammar was not read once")
            again, err2 = attempt(lambda: imp.resolve(memo))
            h.check(err2 is err and fs.opened == [path_of(g)] or err is not None, "a grammar that was imported is read again")
            if err is None:
                same = again is got if last != "*" else all(x is y for x, y in zip(got, again)) and len(got) == len(again)
                h.check(same, "resolving an import again gives other rules")


def which_file(h):
    """Where the file of a grammar is looked for."""
    exts = [None, (".jsgf", ".jgram"), (".jgram", ".jsgf"), ("jgram",), ("jsgf", ".jgram"), ()][h.choose(6, "exts")]
    files = {}
    for sub in (False, True):
        for ext in SUFFIXES:
            p = path_of("a.g", ext, sub)
            if h.bool("file " + p):
                files[p] = source("a.g", [(p.replace("/", ":").replace(".", ":"), True, "w")])
    want = None
    for e in (SUFFIXES if exts is None else exts):
        e = e if e.startswith(".") else "." + e
        for sub in (False, True):
            if want is None and path_of("a.g", e, sub) in files:
                want = path_of("a.g", e, sub)
    how = h.choose(3, "how")
    with Files(files):
        if how == 0:
            got, err = attempt(lambda: Import("a.g.*").resolve(file_exts=exts))
        elif how == 1:
            got, err = attempt(lambda: Import("a.g.*").resolve({}, exts))
        else:
            g = jsgf.Grammar("m")
            g.add_import(Import("a.g.*"))
            got, err = attempt(lambda: g.resolve_imports(None, exts)["a.g.*"])
    if want is None:
        h.check(err is JSGFImportError, "importing from a grammar without a file does not fail")
        h.reach("missing")
    else:
        h.check(err is None and len(got) == 1 and got[0].name == want.replace("/", ":").replace(".", ":"),
                "the grammar was not read from the first file that exists")
        h.reach("found")


# ---- Grammar.get_rule -----------------------------------------------------------
def check_lookup(h, lib, used, local, name, got, err):
    """The result of looking up a name, with these imports and local rules."""
    for r in local:
        if r.name == name:
            h.check(got is r, "a local rule does not have precedence")
            h.reach("local")
            return
    parts = name.split(".")
    if any(p == "" for p in parts):
        h.check(err is GrammarError, "an invalid name was looked up")
        h.reach("invalid")
        return
    if any(not i.endswith("*") and lib.find(i) is None for i in used):
        h.check(err is JSGFImportError, "an import that cannot be resolved was ignored")
        h.reach("broken")
        return
    known = []
    for i in used:
        g = i[:i.rfind(".")]
        for r in lib.public(g) if i.endswith("*") else [i[i.rfind(".") + 1:]]:
            if (g, r) not in known:
                known.append((g, r))
    full = lib.find(name)
    short = [k for k in known if k[1] == name]
    qual = [k for k in known if k[0].split(".")[-1] + "." + k[1] == name]
    if full is not None and len(qual) > (1 if full in qual else 0):
        return  # the full name of one rule and the qualified name of another
    if full is not None:
        h.check(err is None and is_rule(h, got, full), "a full name does not give the rule of that name")
        h.reach("full")
    elif len(short) == 1 or len(qual) == 1:
        h.check(err is None and is_rule(h, got, (short or qual)[0]), "an imported rule is not found by its name")
        h.reach("imported")
    elif len(short) > 1 or len(qual) > 1:
        h.check(err is GrammarError, "an ambiguous name was resolved")
        h.reach("ambiguous")
    else:
        h.check(err is GrammarError or err is JSGFImportError and len(parts) > 1, "a rule was found that does not exist or is not imported")
        h.reach("unknown")


def lookup(imports, n, chars="abgrx."):
    def fn(h):
        lib = Lib({"g": [("r", True), ("x", h.bool("g.x"))], "a.g": [("r", True), ("s", True)], "b.g": [("r", True)]})
        m = jsgf.Grammar("m")
        local = []
        for x in ("r", "x"):
            if h.bool("local " + x):
                local.append(jsgf.Rule(x, h.bool("local %s public" % x), "w"))
        m.add_rules(*local)
        used = []
        for i in imports:
            if h.bool("import " + i):
                used.append(i)
                m.add_import(Import(i))
        name = h.string("name", 1, n, chars)
        memo_first = h.bool("resolved before")
        with Files(lib.files()) as fs:
            broken = any(not i.endswith("*") and lib.find(i) is None for i in used)
            if memo_first and not broken:
                m.resolve_imports()
            got, err = attempt(lambda: m.get_rule(name))
            h.observe("error", None if err is None else err.__name__)
            again, err2 = attempt(lambda: m.get_rule_from_name(name))
            h.check(err2 is err and again is got, "looking up a rule twice gives other results")
            h.check(len(fs.opened) == len(set(fs.opened)) or broken, "a grammar was read twice")
        check_lookup(h, lib, used, local, name, got, err)
    return fn


def history(steps, n, imports, chars="agrsx.", ops=("name", "import", "remove", "rule", "resolve")):
    """Looking up names in between changes of the imports and rules: earlier
    lookups and imports that were removed give no rule a name."""
    def fn(h):
        lib = Lib({"g": [("x", True), ("r", True)], "a.g": [("r", True), ("s", True)]})
        m = jsgf.Grammar("m")
        used, local = [], []
        rule = jsgf.Rule("r", True, "w")
        with Files(lib.files()):
            for k in range(steps):
                op = h.pick(ops, "op%d" % k)
                if op == "name":
                    # Names of rules that exist, in each way.
                    g, r = h.pick((("g", "x"), ("g", "r"), ("a.g", "s")), "rule%d" % k)
                    name = (g + "." + r, r, g.split(".")[-1] + "." + r)[h.choose(3 if "." in g else 2, "how%d" % k)]
                    got, err = attempt(lambda: m.get_rule(name))
                    check_lookup(h, lib, used, local, name, got, err)
                elif op == "import":
                    i = h.pick(imports, "import%d" % k)
                    if i not in used:
                        used.append(i)
                        m.add_import(Import(i))
                elif op == "remove":
                    if not used:
                        return
                    i = used.pop(h.choose(len(used), "remove%d" % k))
                    m.remove_import(Import(i))
                    h.reach("removed")
                elif op == "rule":
                    if local:
                        local.pop()
                        m.remove_rule(rule)
                    else:
                        local.append(rule)
                        m.add_rule(rule)
                else:
                    m.resolve_imports()
                    if h.bool("memo%d" % k):
                        m.resolve_imports({})
            name = h.string("name", 1, n, chars)
            got, err = attempt(lambda: m.get_rule(name))
            h.observe("error", None if err is None else err.__name__)
        check_lookup(h, lib, used, local, name, got, err)
    return fn


def odd_names(h):
    """Names that are no references, for lookups and named references."""
    m = jsgf.Grammar("m")
    r = jsgf.Rule("r", True, "w")
    m.add_rule(r)
    name = h.string("name", 0, 3, "rg. \t*<{")
    with Files(Lib({"g": [("r", True)]}).files()):
        got, err = attempt(lambda: m.get_rule(name))
    ok = name != "" and all(p == "r" or p == "g" or p == "rr" or p == "rg" or p == "gr" or p == "gg" or
                            p == "rrr" or (len(p) > 0 and all(c == "r" or c == "g" for c in p)) for p in name.split("."))
    h.observe("error", None if err is None else err.__name__)
    if not ok:
        h.check(err is GrammarError, "a name that no rule can have was looked up")
        h.reach("invalid")
    elif name == "r":
        h.check(got is r, "a local rule is not found")
        h.reach("local")
    elif name == "g.r":
        h.check(err is None and is_rule(h, got, ("g", "r")), "a full name does not give the rule of that name")
        h.reach("full")
    else:
        h.check(err is GrammarError or err is JSGFImportError, "a rule was found that does not exist")
    v, err = attempt(lambda: m.get_rule(None if h.bool("none") else 1))
    h.check(err is TypeError, "something that is no name was looked up")


# ---- matching --------------------------------------------------------------------
def matching(h):
    """References to imported rules match what those match in their own grammar."""
    files = {}
    # g: public <r> uses its own private <x>, and maybe a rule of grammar a.g
    deep = h.bool("deep")
    files["g.jsgf"] = source("g", [("x", False, "p"), ("r", True, "<x> <s>" if deep else "<x>")], ["a.g.*"] if deep else [])
    back = h.bool("cycle")
    files["a/g.jsgf"] = source("a.g", [("s", True, "q"), ("x", h.bool("ag.x"), "t <r>" if back else "t"), ("y", False, "v")],
                               ["g.r"] if back else [])
    m = jsgf.Grammar("m")
    ref = NamedRuleRef(("r", "g.r")[h.choose(2, "ref")])
    m.add_import(Import(("g.r", "g.*")[h.choose(2, "import")]))
    if h.bool("both"):
        m.add_import(Import("a.g.s"))
    local = jsgf.Rule("x", h.bool("x public"), "u")
    rule = jsgf.PublicRule("m1", jsgf.Sequence(ref, jsgf.OptionalGrouping(NamedRuleRef("x"))))
    m.add_rules(*([local, rule] if h.bool("order") else [rule, local]))
    speech = h.string("speech", 1, 3, "pqutv ")
    with Files(files):
        found, err = attempt(lambda: m.find_matching_rules(speech))
    h.check(err is None, "matching imported rules failed")
    h.observe("found", [r.name for r in found])
    words = speech.split()
    want = ["p", "q"] if deep else ["p"]
    hit = words == want or words == want + ["u"]
    h.check((rule in found) == hit, "a reference to an imported rule does not match what that rule matches")
    h.check(all(r is rule or r is local for r in found), "rules of other grammars were found")
    h.reach("hit" if hit else "miss")


def same_names(h):
    """A grammar that has the name of a rule of another grammar."""
    lib = Lib({"a": [("b", True)], "a.b": [("c", True)]})
    m = jsgf.Grammar("m")
    imports = [("a.b", "a.*")[h.choose(2, "i1")], ("a.b.c", "a.b.*")[h.choose(2, "i2")]]
    if h.bool("swap"):
        imports.reverse()
    for i in imports:
        m.add_import(Import(i))
    name = h.string("name", 1, 5, "abc.")
    with Files(lib.files()):
        got, err = attempt(lambda: m.get_rule(name))
    for full, last in (("a.b", "b"), ("a.b.c", "c")):
        if name == full or name == last:
            h.check(err is None and is_rule(h, got, (full[:full.rfind(".")], last)),
                    "an imported rule is not found if a grammar has its full name", sig="grammar-named-like-rule")
            h.reach("found")


Q, T = ("quick",), ("thorough",)
B = Q + T
LOOK = ("local", "invalid", "full", "imported", "ambiguous", "unknown")
HARNESSES = [
    dict(name="import", fn=resolve_import, tiers=B, reach=("missing", "wildcard", "private", "single"),
         bounds="files of 3 grammars with up to 2 rules, import names of 3 to 7 symbolic characters"),
    dict(name="which-file", fn=which_file, tiers=B, reach=("missing", "found"),
         bounds="every set of the 4 files of a grammar, 6 lists of file extensions, given to Import.resolve or Grammar.resolve_imports"),
    dict(name="lookup", fn=lookup(("a.g.r", "b.g.r", "a.g.*"), 5), tiers=B, reach=LOOK,
         bounds="3 imports used or not, up to 2 local rules, names of up to 5 symbolic characters"),
    dict(name="lookup-broken", fn=lookup(("g.x", "g.r"), 3), tiers=B, reach=("local", "broken", "unknown"),
         bounds="2 imports, one of which may be private, names of up to 3 symbolic characters"),
    dict(name="lookup7", fn=lookup(("a.g.r", "b.g.r", "a.g.*", "g.*"), 7), tiers=T, reach=LOOK,
         bounds="4 imports used or not, up to 2 local rules, names of up to 7 symbolic characters"),
    dict(name="history2", fn=history(2, 4, ("g.x", "a.g.*")), tiers=Q, reach=LOOK[:1] + LOOK[2:4] + ("unknown", "removed"),
         bounds="2 operations: looking up a rule in any way, adding or removing one of 2 imports or a local rule, resolving the imports; then names of up to 4 symbolic characters"),
    dict(name="history3", fn=history(3, 4, ("g.x", "a.g.*", "g.*")), tiers=T, reach=LOOK[:1] + LOOK[2:4] + ("unknown", "removed"),
         bounds="as history2 with 3 operations and 3 imports"),
    dict(name="odd-names", fn=odd_names, tiers=B, reach=("invalid", "local", "full"), bounds="names of up to 3 symbolic characters, with whitespace and punctuation"),
    dict(name="matching", fn=matching, tiers=B, reach=("hit", "miss"),
         bounds="imported rules with private, imported and cyclic references, speech of up to 3 symbolic characters"),
    dict(name="same-names", fn=same_names, tiers=B, reach=("found",), bounds="a grammar named like a rule of another one, names of up to 5 symbolic characters"),
]
OUTSIDE = ["the file system itself: files are stand-ins", "files whose grammar has another name than the file",
           "full names of one rule that are also qualified names of another imported one", "importing from a grammar of one's own name",
           "changes to grammars after they were imported"]
