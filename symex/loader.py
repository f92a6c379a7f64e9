"""
Loads the real sources (jsgf, pyparsing, six) with an AST instrumentation that
routes the C-implemented operations on strings and containers through rt.py.
The sources are read from disk on every run; nothing of them is kept here.
"""
import ast
import builtins
import hashlib
import importlib.abc
import importlib.util
import os
import sys

from . import rt, symre

REPO = os.environ.get("VERIF_REPO", "/repo")
SITE = None
LOADED = {}          # module name -> (path, sha256)
FUNCS = {}           # code key -> qualified name (functions defined in jsgf)


def find_site():
    import glob
    c = glob.glob("/opt/venv/lib/python3*/site-packages/pyparsing.py")
    if not c:
        c = glob.glob("/opt/venv/lib/python3*/site-packages/pyparsing/__init__.py")
    return os.path.dirname(c[0]) if c[0].endswith("pyparsing.py") else \
        os.path.dirname(os.path.dirname(c[0]))


class Instrument(ast.NodeTransformer):
    def __init__(self, containers):
        self.containers = containers

    def s(self, name, node):
        return ast.copy_location(ast.Attribute(
            value=ast.copy_location(ast.Name(id="__sx__", ctx=ast.Load()), node),
            attr=name, ctx=ast.Load()), node)

    def call(self, name, args, node):
        return ast.copy_location(ast.Call(func=self.s(name, node), args=args,
                                          keywords=[]), node)

    def const(self, v, node):
        return ast.copy_location(ast.Constant(value=v), node)

    # in / not in
    def visit_Compare(self, node):
        self.generic_visit(node)
        if len(node.ops) == 1 and isinstance(node.ops[0], (ast.In, ast.NotIn)):
            n = "contains" if isinstance(node.ops[0], ast.In) else "not_contains"
            # the left operand is evaluated first
            t = ast.copy_location(ast.Tuple(elts=[node.left, node.comparators[0]],
                                            ctx=ast.Load()), node)
            return self.call(n + "2", [t], node)
        return node

    def visit_BinOp(self, node):
        self.generic_visit(node)
        if isinstance(node.op, ast.Mod):
            return self.call("mod", [node.left, node.right], node)
        return node

    def visit_AugAssign(self, node):
        self.generic_visit(node)
        if isinstance(node.op, ast.Mod) and isinstance(node.target, ast.Name):
            return ast.copy_location(ast.Assign(
                targets=[node.target],
                value=self.call("mod", [ast.copy_location(
                    ast.Name(id=node.target.id, ctx=ast.Load()), node),
                    node.value], node)), node)
        return node

    def visit_JoinedStr(self, node):
        parts = []
        for v in node.values:
            if isinstance(v, ast.Constant):
                parts.append(v)
                continue
            value = self.visit(v.value)
            conv = {-1: "", 115: "s", 114: "r", 97: "a"}[v.conversion]
            spec = self.visit(v.format_spec) if v.format_spec is not None \
                else self.const("", node)
            parts.append(ast.copy_location(ast.Tuple(
                elts=[value, self.const(conv, node), spec], ctx=ast.Load()), node))
        return self.call("fstr", parts, node)

    def visit_Call(self, node):
        f = node.func
        if isinstance(f, ast.Attribute) and f.attr in rt.STR_METHODS and not (
                isinstance(f.value, ast.Call) and isinstance(f.value.func, ast.Name)
                and f.value.func.id == "super"):
            obj = self.visit(f.value)
            args = [self.argexpr(a) for a in node.args]
            kws = [ast.keyword(arg=k.arg, value=self.argexpr(k.value))
                   for k in node.keywords]
            return ast.copy_location(ast.Call(
                func=self.s("cm", node),
                args=[obj, self.const(f.attr, node)] + args, keywords=kws), node)
        name = f.id if isinstance(f, ast.Name) else None
        if name in rt.CALLS:
            nf = self.s("c_" + name, node)
            f2 = ast.copy_location(ast.Call(
                func=self.s("pick", node),
                args=[ast.copy_location(ast.Name(id=name, ctx=ast.Load()), node), nf],
                keywords=[]), node)
        elif self.containers and name in rt.CONTAINER_CALLS:
            f2 = self.s("c_" + name, node)
        elif name is not None:
            f2 = f
        else:
            f2 = self.visit(f)
        if name in ("isinstance", "issubclass"):
            args = [self.visit(a) for a in node.args]
        else:
            args = [self.argexpr(a) for a in node.args]
        kws = [ast.keyword(arg=k.arg, value=self.argexpr(k.value))
               for k in node.keywords]
        return ast.copy_location(ast.Call(func=f2, args=args, keywords=kws), node)

    def argexpr(self, a):
        """An argument: the bare builtins str/repr/... become their counterparts."""
        if isinstance(a, ast.Name) and isinstance(a.ctx, ast.Load) and (
                a.id in ("str", "repr", "hash", "ord", "unicode", "float", "int") or
                self.containers and a.id in rt.CONTAINER_CALLS):
            return ast.copy_location(ast.Call(
                func=self.s("pick", a), args=[a, self.s("c_" + a.id, a)],
                keywords=[]), a)
        return self.visit(a)

    def visit_Attribute(self, node):
        self.generic_visit(node)
        if isinstance(node.ctx, ast.Load) and node.attr in rt.STR_METHODS and \
                isinstance(node.value, (ast.Constant, ast.Name)) and (
                    isinstance(node.value, ast.Constant) or node.value.id == "str"):
            return self.call("am", [node.value, self.const(node.attr, node)], node)
        return node

    # containers
    def visit_Dict(self, node):
        self.generic_visit(node)
        if not self.containers:
            return node
        elts = []
        for k, v in zip(node.keys, node.values):
            elts.append(ast.copy_location(ast.Tuple(
                elts=[v] if k is None else [k, v], ctx=ast.Load()), node))
        return self.call("mkdict", elts, node)

    def visit_Set(self, node):
        self.generic_visit(node)
        if not self.containers:
            return node
        return self.call("mkset", [
            self.call("star", [e.value], node) if isinstance(e, ast.Starred) else e
            for e in node.elts], node)

    def visit_DictComp(self, node):
        self.generic_visit(node)
        if not self.containers:
            return node
        t = ast.copy_location(ast.Tuple(elts=[node.key, node.value], ctx=ast.Load()), node)
        g = ast.copy_location(ast.GeneratorExp(elt=t, generators=node.generators), node)
        return self.call("c_dict", [g], node)

    def visit_SetComp(self, node):
        self.generic_visit(node)
        if not self.containers:
            return node
        g = ast.copy_location(ast.GeneratorExp(elt=node.elt,
                                               generators=node.generators), node)
        return self.call("c_set", [g], node)


class _Runtime:
    """The object bound to __sx__ in instrumented modules."""


RT = _Runtime()
for _n in ("mod", "fstr", "cm", "am", "mkdict", "mkset", "star"):
    setattr(RT, _n, getattr(rt, _n))
for _n, _f in list(rt.CALLS.items()) + list(rt.CONTAINER_CALLS.items()):
    setattr(RT, "c_" + _n, _f)
RT.contains2 = lambda t: rt.contains(t[1], t[0])
RT.not_contains2 = lambda t: rt.not_contains(t[1], t[0])


def _pick(actual, replacement):
    """Use the replacement only where the name really is the builtin."""
    if type(actual) is type:
        b = builtins.__dict__.get(actual.__name__)
        if b is actual:
            return replacement
        return actual
    if actual in (hash, repr, ord, format, sum, round):
        return replacement
    return actual


RT.pick = _pick

SHIMS = {}


class _Loader(importlib.abc.Loader):
    def __init__(self, path, containers, package):
        self.path = path
        self.containers = containers
        self.package = package

    def create_module(self, spec):
        return None

    def exec_module(self, module):
        with open(self.path, "rb") as f:
            src = f.read()
        LOADED[module.__name__] = (self.path, hashlib.sha256(src).hexdigest())
        tree = ast.parse(src, self.path)
        if module.__name__.split(".")[0] == "jsgf":
            collect_funcs(tree, module.__name__)
        tree = Instrument(self.containers).visit(tree)
        ast.fix_missing_locations(tree)
        code = compile(tree, self.path, "exec", dont_inherit=True)
        module.__dict__["__sx__"] = RT
        module.__dict__["__builtins__"] = BUILTINS
        exec(code, module.__dict__)
        patch_module(module)


def collect_funcs(tree, modname):
    def walk(node, prefix):
        for c in ast.iter_child_nodes(node):
            if isinstance(c, (ast.FunctionDef, ast.AsyncFunctionDef)):
                q = prefix + c.name
                line = min([c.lineno] + [d.lineno for d in c.decorator_list])
                FUNCS[(modname, line, c.name)] = q
                walk(c, q + ".")
            elif isinstance(c, ast.ClassDef):
                walk(c, prefix + c.name + ".")
            else:
                walk(c, prefix)
    walk(tree, modname + ".")


def _import(name, globals=None, locals=None, fromlist=(), level=0):
    if level == 0 and name in SHIMS:
        return SHIMS[name if fromlist else name.split(".")[0]]
    return builtins.__import__(name, globals, locals, fromlist, level)


BUILTINS = dict(builtins.__dict__)
BUILTINS["__import__"] = _import


def patch_module(module):
    if module.__name__ == "pyparsing":
        module._ustr = rt.str_
        module.__dict__["range"] = range


class _Finder(importlib.abc.MetaPathFinder):
    def find_spec(self, name, path=None, target=None):
        top = name.split(".")[0]
        if top == "jsgf":
            base = os.path.join(REPO, *name.split("."))
            if os.path.isdir(base):
                p = os.path.join(base, "__init__.py")
                sp = importlib.util.spec_from_file_location(
                    name, p, loader=_Loader(p, True, True),
                    submodule_search_locations=[base])
                return sp
            p = base + ".py"
            if os.path.isfile(p):
                return importlib.util.spec_from_file_location(
                    name, p, loader=_Loader(p, True, False))
            return None
        if name == "pyparsing":
            p = os.path.join(SITE, "pyparsing.py")
            return importlib.util.spec_from_file_location(
                name, p, loader=_Loader(p, False, False))
        if name == "six":
            p = os.path.join(SITE, "six.py")
            return importlib.util.spec_from_file_location(name, p)
        if top == "props":
            base = os.path.join(os.path.dirname(os.path.dirname(
                os.path.abspath(__file__))), *name.split("."))
            if os.path.isdir(base):
                p = os.path.join(base, "__init__.py")
                return importlib.util.spec_from_file_location(
                    name, p, loader=_Loader(p, True, True),
                    submodule_search_locations=[base])
            return importlib.util.spec_from_file_location(
                name, base + ".py", loader=_Loader(base + ".py", True, False))
        return None


def install():
    global SITE
    SITE = find_site()
    from . import stubs
    SHIMS["re"] = symre
    SHIMS["collections"] = rt.collections_shim
    SHIMS["random"] = stubs.random
    SHIMS["math"] = stubs.math
    SHIMS["os"] = stubs.os
    SHIMS["os.path"] = stubs.path
    for n in list(sys.modules):
        if n.split(".")[0] in ("jsgf", "pyparsing", "six", "props"):
            del sys.modules[n]
    sys.meta_path.insert(0, _Finder())
