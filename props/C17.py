"""C17: the set of rules of a grammar and the dependencies between them."""
import jsgf
from jsgf import GrammarError
from props.gen import clone_rule
from props.C15 import attempt

NAMES = "abc"


class Entry:
    """A rule that can be added; it can reference another one."""

    def __init__(self, h, i, pool, named, wide, refs=True, vis=True):
        self.kind, self.to = "no", None
        self.name = h.string("n%d" % i, 1, 1, NAMES)
        if refs and i > 0 and h.bool("r%d.ref" % i):
            self.to = pool[h.choose(i, "r%d.to" % i)]
            self.kind = "named" if named and h.bool("r%d.named" % i) else "object"
        self.text = "w" if not wide or h.bool("r%d.word" % i) else "v"
        e = self.body()
        self.visible = h.bool("r%d.visible" % i) if vis else True
        self.rule = jsgf.Rule(self.name, self.visible, e)
        self.on = True
        self.ever = False

    def body(self):
        self.to_name = None if self.to is None else self.to.name
        if self.to is None:
            return jsgf.Literal(self.text)
        return jsgf.Sequence(self.text, jsgf.OptionalGrouping(
            jsgf.NamedRuleRef(self.to_name) if self.kind == "named" else jsgf.RuleRef(self.to.rule)))

    def equal(self, other):
        if not (self.name == other.name) or self.visible != other.visible or self.kind != other.kind or \
                self.text != other.text:
            return False
        if self.kind == "named":
            return self.to_name == other.to_name
        return self.kind == "no" or self.to.equal(other.to)


class Stop(Exception):
    """The history left what the property is about."""


class Model:
    def __init__(self, h, pool):
        self.h, self.pool = h, pool
        self.g = jsgf.Grammar("p.g")
        self.inside = []

    def named(self, name):
        for x in self.inside:
            if x.name == name:
                return x
        return None

    def deps(self, x):
        """Entries that x references, directly or not."""
        out, first = [], x
        while x.kind != "no":
            if x.kind == "named":
                y = self.named(x.to_name) if any(z is x for z in self.inside) else None
                if y is None:
                    raise Stop()  # the reference does not resolve
            else:
                y = x.to
            if y is first or any(z is y for z in out):
                raise Stop()  # a cycle
            out.append(y)
            x = y
        return out

    def dependents(self, x):
        return [y for y in self.inside if any(z is x or z.equal(x) for z in self.deps(y))]

    # -- operations: each returns the error that is due
    def add(self, n):
        h = self.h
        k = h.choose(len(self.pool) + 1, n + ".which")
        if k == len(self.pool):
            bad = h.pick((None, "a"), n + ".bad")
            return attempt(lambda: self.g.add_rule(bad))[1], TypeError
        x = self.pool[k]
        many = h.bool(n + ".many")
        _, err = attempt(lambda: self.g.add_rules(x.rule) if many else self.g.add_rule(x.rule))
        there = self.named(x.name)
        if there is not None:
            return err, None if there is x or there.equal(x) else GrammarError
        self.inside.append(x)
        x.ever = True
        return err, None

    def find(self, n, equal):
        """A way to name a rule and the entry in the grammar that is meant."""
        h = self.h
        how = h.choose(4 if equal else 3, n + ".how")
        if how == 2:
            name = h.string(n + ".name", 1, 1, NAMES)
            return name, self.named(name)
        x = self.pool[h.choose(len(self.pool), n + ".which")]
        if how == 0:
            return x.name, self.named(x.name)
        for y in self.inside:
            if y.equal(x):
                return (x.rule if how == 1 else clone_rule(x.rule)), y
        return (x.rule if how == 1 else clone_rule(x.rule)), None

    def remove(self, n):
        h = self.h
        arg, x = self.find(n, True)
        ignore = h.bool(n + ".ignore")
        used = x is not None and not ignore and len(self.dependents(x)) > 0
        if ignore:
            _, err = attempt(lambda: self.g.remove_rule(arg, ignore_dependent=True))
        else:
            _, err = attempt(lambda: self.g.remove_rule(arg))
        if x is None or used:
            return err, GrammarError
        self.inside = [y for y in self.inside if y is not x]
        return err, None

    def enable(self, n):
        return self.switch(n, True)

    def disable(self, n):
        return self.switch(n, False)

    def switch(self, n, on):
        arg, x = self.find(n, False)
        _, err = attempt(lambda: self.g.enable_rule(arg) if on else self.g.disable_rule(arg))
        if x is None:
            if not isinstance(arg, str):
                raise Stop()
            return err, GrammarError
        x.on = on
        if not isinstance(arg, str):
            for y in self.pool:
                if y.rule is arg:
                    y.on = on
        return err, None

    def pick(self, n):
        return self.pool[self.h.choose(len(self.pool), n + ".which")]

    def direct(self, n):
        """Rules are changed themselves: enabled, disabled, shown or hidden."""
        x = self.pick(n)
        if self.h.bool(n + ".show"):
            x.visible = x.rule.visible = not x.visible
        else:
            x.on = not x.on
            if x.on:
                x.rule.enable()
            else:
                x.rule.disable()
        return None, None

    def rename(self, n):
        x = self.pick(n)
        name = self.h.string(n + ".name", 1, 1, NAMES)
        there = self.named(name)
        if there is not None and there is not x and any(y is x for y in self.inside):
            raise Stop()  # two rules of a grammar would have the name
        x.name = x.rule.name = name
        return None, None

    def rewrite(self, n):
        """A rule gets another expansion."""
        h, x = self.h, self.pick(n)
        k = h.choose(3, n + ".kind")
        x.kind = ("no", "named", "object")[k]
        x.to = None if k == 0 else self.pick(n + ".to")
        y = x.to
        while y is not None:
            if y is x:
                raise Stop()  # a cycle
            y = y.to
        x.text = "u"
        x.rule.expansion = x.body()
        return None, None

    # -- observation
    def agree(self, deps=True):
        h, g = self.h, self.g
        rules = g.rules
        want = [x.rule for x in self.inside]

        def same(xs, ys):
            return len(xs) == len(ys) and all(x is y for x, y in zip(xs, ys))
        h.check(same(rules, want), "the rules of the grammar are not those that the operations leave, in order")
        rules.append(None)
        g.visible_rules.append(None)
        g.match_rules.append(None)
        g.rule_names.append(None)
        h.check(same(g.rules, want), "changing the list of rules changed the grammar")
        h.check(g.rule_names == [x.name for x in self.inside], "the rule names are wrong")
        vis = [x.rule for x in self.inside if x.visible]
        h.check(same(g.visible_rules, vis) and same(g.match_rules, vis), "the visible rules are wrong")
        for x in self.pool:
            here = any(y is x for y in self.inside)
            h.check((x.rule.grammar is g) if here else x.rule.grammar is None,
                    "a rule does not belong to the grammar it is in")
            h.check(x.rule.active == x.on, "a rule is enabled or disabled without having been told to")
        name = h.string("get", 1, 1, NAMES)
        x = self.named(name)
        got, err = attempt(lambda: g.get_rule_from_name(name))
        h.check((err is GrammarError) if x is None else got is x.rule, "getting a rule by its name gives another rule")
        got, err = attempt(lambda: g.get_rules(name))
        h.check((err is GrammarError) if x is None else (len(got) == 1 and got[0] is x.rule),
                "getting rules by name gives other rules")
        if not deps:
            return
        try:
            table = [(x, self.deps(x), self.dependents(x)) for x in self.inside]
        except Stop:
            return
        h.reach("dependent" if any(len(t[2]) for t in table) else "independent")
        for x in self.pool:
            there = self.g.name.split(".")[-1] + "." + x.name, self.g.name + "." + x.name
            if not any(y is x for y in self.inside):
                there = x.name, x.name
            h.check((x.rule.qualified_name, x.rule.fully_qualified_name) == there, "the qualified names of a rule are wrong")
        for x, down, up in table:
            h.check(same_set(x.rule.dependencies, [y.rule for y in down]), "the dependencies of a rule are wrong")
            h.check(same_set(x.rule.dependent_rules, [y.rule for y in up]), "the dependent rules of a rule are wrong")
            h.check(x.rule.reference_count == len(up), "the reference count of a rule is wrong")


def same_set(got, want):
    """Equal as sets of objects, or of equal objects."""
    got = list(got)
    return all(any(x == y for y in want) for x in got) and all(any(x == y for x in got) for y in want)


def history(npool, nops, ops=("add", "remove", "enable", "disable"), named=True, start=0, wide=False, deps=True, refs=True, vis=True, always=False):
    def fn(h):
        pool = []
        for i in range(npool):
            x = Entry(h, i, pool, named, wide, refs, vis)
            if x.kind == "named":
                h.assume(h.not_(x.name == x.to.name))
            pool.append(x)
        m = Model(h, pool)
        try:
            for i in range(start):
                x = pool[i]
                there = m.named(x.name)
                if there is None:
                    m.g.add_rule(x.rule)
                    m.inside.append(x)
            if always:
                m.agree(True)
            for i in range(nops):
                err, want = getattr(m, h.pick(ops, "op%d" % i))("o%d" % i)
                h.observe("error", None if err is None else err.__name__)
                h.check(err is want, "an operation does not fail as documented, or fails")
                h.reach("error" if err else "done")
                m.agree(deps and (always or i == nops - 1))
        except Stop:
            return
    return fn


def qualified(parts):
    """Qualified names have the last part of the grammar's name, fully qualified ones all of it."""
    def fn(h):
        ps = [h.string("g%d" % i, 1, 2, NAMES + "1") for i in range(1 + h.choose(parts, "parts"))]
        g = jsgf.Grammar(".".join(ps))
        name = h.string("r", 1, 2, NAMES + "1")
        r = jsgf.Rule(name, h.bool("visible"), "x")
        h.check((r.qualified_name, r.fully_qualified_name) == (name, name), "the qualified names of a rule without a grammar are wrong")
        g.add_rule(r)
        if h.bool("rename"):
            ps = [h.string("h%d" % i, 1, 1, NAMES) for i in range(1 + h.choose(parts, "parts2"))]
            g.name = ".".join(ps)
        h.check(r.qualified_name == ps[-1] + "." + name, "the qualified name of a rule is wrong")
        h.check(r.fully_qualified_name == ".".join(ps) + "." + name, "the fully qualified name of a rule is wrong")
        h.check(g.get_rule(name) is r and g.rule_names == [name], "the rule is not found by its name")
        g.remove_rule(name)
        h.check((r.qualified_name, r.fully_qualified_name) == (name, name), "the qualified names of a removed rule are wrong")
        h.reach("checked")
    return fn


def imports(h):
    g = jsgf.Grammar("g")
    want = []
    for i in range(3):
        x = jsgf.Import("a." + h.string("i%d" % i, 1, 1, NAMES))
        k = h.choose(6, "op%d" % i)
        at = [j for j, y in enumerate(want) if y.name == x.name]
        due = None
        if k < 2:
            _, err = attempt(lambda: g.add_import(x) if k == 0 else g.add_imports(x))
            if not at:
                want.append(x)
        elif k < 4:
            _, err = attempt(lambda: g.remove_import(x) if k == 2 else g.remove_imports(x))
            if at:
                want.pop(at[0])
            else:
                due = GrammarError
        else:
            _, err = attempt(lambda: g.add_import("a.b") if k == 4 else g.remove_import("a.b"))
            due = TypeError
        h.check(err is due, "an operation on imports does not fail as documented, or fails")
        h.reach("error" if err else "done")
        got = g.imports
        h.check(len(got) == len(want) and all(p is q for p, q in zip(got, want)), "the imports are not those that were added")
        h.check(g.import_names == [p.name for p in want], "the import names are wrong")
        got.append(None)
        g.import_names.append(None)
        got = g.imports
        h.check(len(got) == len(want) and all(p is q for p, q in zip(got, want)), "changing the list of imports changed the grammar")


Q, T, B = ("quick",), ("thorough",), ("quick", "thorough")
ED = ("done", "error")
DEP = ("dependent", "independent")
OPS = "operations out of adding (new, equal, conflicting and invalid ones), removing (by name, object or an equal rule; ignoring " \
      "dependent rules or not), enabling and disabling"
HARNESSES = [
    dict(name="qualified4", fn=qualified(4), tiers=B, reach=("checked",),
         bounds="grammar names of 1..4 parts of 1..2 symbolic characters, changed or not, rule names of 1..2 characters"),
    dict(name="two", fn=history(2, 2), tiers=B, reach=ED + DEP,
         bounds="2 rules with symbolic names out of a, b, c (equal or not), any visibility and references by name or object, 2 " + OPS),
    dict(name="add3", fn=history(3, 3, ops=("add",), deps=False, refs=False, vis=False), tiers=B, reach=ED,
         bounds="3 such public rules without references, 3 additions"),
    dict(name="deps", fn=history(3, 1, ops=("add", "remove"), start=3, vis=False), tiers=B, reach=ED + DEP,
         bounds="3 such public rules added, 1 addition or removal; dependencies, dependent rules and reference counts of all"),
    dict(name="three", fn=history(2, 3), tiers=T, reach=ED + DEP, bounds="2 such rules, 3 " + OPS),
    dict(name="add3-all", fn=history(3, 3, ops=("add",), deps=False), tiers=T, reach=ED, bounds="3 such rules, 3 additions"),
    dict(name="deps3-all", fn=history(3, 1, ops=("add", "remove"), start=3), tiers=T, reach=ED + DEP,
         bounds="3 such rules added, 1 addition or removal"),
    dict(name="deps4", fn=history(4, 1, ops=("add", "remove"), start=4, vis=False), tiers=T, reach=ED + DEP, bounds="4 such rules added, 1 addition or removal"),
    dict(name="changes", fn=history(2, 1, ops=("direct", "rename", "rewrite", "remove"), start=2, vis=False, always=True), tiers=Q, reach=("done", "error") + DEP,
         bounds="2 such rules added, everything observed before and after one operation: enabling, disabling, showing, hiding, renaming a rule, giving it another expansion, removing a rule"),
    dict(name="changes2", fn=history(2, 2, ops=("direct", "rename", "rewrite", "remove"), start=2, vis=False, always=True), tiers=T, reach=("done", "error") + DEP,
         bounds="as changes with 2 operations"),
    dict(name="changes3", fn=history(3, 2, ops=("direct", "rename", "rewrite"), start=3, vis=False, always=True), tiers=T, reach=("done",) + DEP,
         bounds="as changes with 3 rules, without removals"),
    dict(name="imports", fn=imports, tiers=B, reach=ED, bounds="3 additions or removals of imports with symbolic names"),
]
OUTSIDE = ["named references that do not resolve, and rules that reference themselves",
           "names of rules that are changed to one that another rule of the grammar has", "rules in more than one grammar"]
