"""Instrumentation of Python source and the private importer.

The source of /repo (and of pathlib/posixpath/genericpath of the running
Python) is parsed, every construct that could meet a symbolic value is routed
through sx.rt, and the result is executed in fresh module objects.  Nothing is
cached between runs of a check: the encoding always comes from the current
source text."""
import ast
import builtins
import importlib
import importlib.util
import os
import sys
import types

from . import rt

NO_WRAP = {"super", "locals", "globals", "vars", "eval", "exec", "dir", "__import__"}
H = "__sx__"


def _hook(name):
    return ast.Attribute(ast.Name(H, ast.Load()), name, ast.Load())


class Instrument(ast.NodeTransformer):
    def __init__(self, modname):
        self.mod = modname
        self.stack = []

    # ---- functions and classes
    def _function(self, node):
        node.decorator_list = [self.visit(d) for d in node.decorator_list]
        a = node.args
        a.defaults = [self.visit(d) for d in a.defaults]
        a.kw_defaults = [self.visit(d) if d is not None else None for d in a.kw_defaults]
        self.stack.append(node.name)
        body = []
        for s in node.body:
            r = self.visit(s)
            body.extend(r if isinstance(r, list) else [r])
        qual = self.mod + "." + ".".join(self.stack)
        self.stack.pop()
        enter = ast.Expr(ast.Call(_hook("enter"), [ast.Constant(qual)], []))
        i = 1 if (body and isinstance(body[0], ast.Expr)
                  and isinstance(body[0].value, ast.Constant)
                  and isinstance(body[0].value.value, str)) else 0
        body.insert(i, enter)
        node.body = body
        return node

    visit_FunctionDef = _function
    visit_AsyncFunctionDef = _function

    def visit_ClassDef(self, node):
        self.stack.append(node.name)
        self.generic_visit(node)
        self.stack.pop()
        node.bases = [
            ast.Call(_hook("base"), [b], [])
            if isinstance(b, ast.Name) and b.id in ("dict", "set") else b
            for b in node.bases]
        return node

    def visit_Lambda(self, node):
        self.generic_visit(node)
        return node

    def visit_AnnAssign(self, node):
        node.target = self.visit(node.target)
        if node.value is not None:
            node.value = self.visit(node.value)
        return node

    def visit_arg(self, node):
        return node

    # ---- expressions
    def visit_Call(self, node):
        self.generic_visit(node)
        if isinstance(node.func, ast.Name) and node.func.id in NO_WRAP:
            return node
        keywords = [k if k.arg is not None
                    else ast.keyword(None, ast.Call(_hook("keywords"), [k.value], []))
                    for k in node.keywords]
        return ast.Call(_hook("call"), [node.func] + node.args, keywords)

    def visit_Compare(self, node):
        self.generic_visit(node)
        if len(node.ops) == 1 and isinstance(node.ops[0], (ast.In, ast.NotIn)):
            c = ast.Call(_hook("contains"), [node.left, node.comparators[0]], [])
            if isinstance(node.ops[0], ast.NotIn):
                return ast.UnaryOp(ast.Not(), c)
            return c
        return node

    def visit_JoinedStr(self, node):
        parts = []
        for v in node.values:
            if isinstance(v, ast.Constant):
                parts.append(v)
            else:
                spec = self.visit(v.format_spec) if v.format_spec is not None else ast.Constant("")
                parts.append(ast.Tuple([self.visit(v.value), ast.Constant(v.conversion), spec],
                                       ast.Load()))
        return ast.Call(_hook("fstr"), parts, [])

    def visit_Subscript(self, node):
        self.generic_visit(node)
        if isinstance(node.ctx, ast.Load) and not isinstance(node.slice, ast.Slice) and not (
                isinstance(node.slice, ast.Tuple)
                and any(isinstance(e, ast.Slice) for e in node.slice.elts)):
            return ast.Call(_hook("getitem"), [node.value, node.slice], [])
        return node

    def visit_BinOp(self, node):
        self.generic_visit(node)
        if isinstance(node.op, ast.Mod):
            return ast.Call(_hook("mod"), [node.left, node.right], [])
        return node

    def visit_Dict(self, node):
        self.generic_visit(node)
        items = [ast.Tuple([v] if k is None else [k, v], ast.Load())
                 for k, v in zip(node.keys, node.values)]
        return ast.Call(_hook("mkdict_display"), items, [])

    def visit_Set(self, node):
        self.generic_visit(node)
        return ast.Call(_hook("mkset"), [ast.List(node.elts, ast.Load())], [])

    def visit_DictComp(self, node):
        self.generic_visit(node)
        g = ast.GeneratorExp(ast.Tuple([node.key, node.value], ast.Load()), node.generators)
        return ast.Call(_hook("mkdict"), [g], [])

    def visit_SetComp(self, node):
        self.generic_visit(node)
        return ast.Call(_hook("mkset"), [ast.GeneratorExp(node.elt, node.generators)], [])

    def visit_Match(self, node):
        # patterns contain no expressions that may be rewritten
        node.subject = self.visit(node.subject)
        for c in node.cases:
            if c.guard is not None:
                c.guard = self.visit(c.guard)
            body = []
            for s in c.body:
                r = self.visit(s)
                body.extend(r if isinstance(r, list) else [r])
            c.body = body
        return node


_code = {}


def compile_source(path, modname):
    key = (path, modname)
    if key not in _code:
        with open(path, encoding="utf-8") as f:
            src = f.read()
        tree = ast.parse(src, path)
        tree = Instrument(modname).visit(tree)
        ast.fix_missing_locations(tree)
        _code[key] = compile(tree, path, "exec")
    return _code[key]


class Facade(types.SimpleNamespace):
    """A stand-in for a standard module: overrides first, then the original."""

    def __init__(self, original, **over):
        super().__init__(**over)
        self.__dict__["_original"] = original

    def __getattr__(self, name):
        o = self.__dict__.get("_original")
        if o is None or name == "__path__":
            raise AttributeError(name)
        return getattr(o, name)


class ConcretisingFacade(Facade):
    """Functions of the original module, on concretised arguments."""

    def __getattr__(self, name):
        v = super().__getattr__(name)
        if isinstance(v, (types.FunctionType, types.BuiltinFunctionType)):
            def f(*a, **k):
                return v(*rt.deep_concrete(a), **{n: rt.deep_concrete(x) for n, x in k.items()})
            return f
        return v


CONCRETISING = {"fnmatch", "urllib.parse", "string", "textwrap",
                "difflib", "unicodedata", "stat", "base64", "binascii", "struct"}


class Importer:
    """Imports /repo's package (fresh per instance) and patched standard modules."""

    shared = {}

    def __init__(self, roots, overrides):
        self.roots = roots              # {package name: directory holding it}
        self.overrides = overrides      # {dotted name: object}
        self.modules = {}

    # -- module execution
    def _new(self, name, path, is_pkg, store):
        m = types.ModuleType(name)
        m.__file__ = path
        m.__package__ = name if is_pkg else name.rpartition(".")[0]
        if is_pkg:
            m.__path__ = [os.path.dirname(path)]
        m.__dict__[H] = rt
        b = dict(builtins.__dict__)
        b["__import__"] = self.import_
        m.__dict__["__builtins__"] = b
        store[name] = m
        try:
            exec(compile_source(path, name), m.__dict__)
        except BaseException:
            store.pop(name, None)
            raise
        return m

    def load(self, name):
        """The module object for a dotted name."""
        if name in self.overrides:
            return self.overrides[name]
        top = name.partition(".")[0]
        if top in self.roots:
            if name in self.modules:
                return self.modules[name]
            parent, _, leaf = name.rpartition(".")
            if parent:
                self.load(parent)
                if name in self.modules:
                    return self.modules[name]
            base = os.path.join(self.roots[top], *name.split("."))
            if os.path.isdir(base) and os.path.exists(os.path.join(base, "__init__.py")):
                m = self._new(name, os.path.join(base, "__init__.py"), True, self.modules)
            elif os.path.exists(base + ".py"):
                m = self._new(name, base + ".py", False, self.modules)
            elif os.path.isdir(base):
                m = types.ModuleType(name)
                m.__path__ = [base]
                self.modules[name] = m
            else:
                raise ModuleNotFoundError(f"No module named {name!r}", name=name)
            if parent:
                setattr(self.modules[parent], leaf, m)
            return m
        if name in ("pathlib", "posixpath", "genericpath"):
            st = Importer.shared
            if name not in st:
                imp = Importer({}, self.overrides)
                path = os.path.join(os.path.dirname(os.__file__), name + ".py")
                imp._new(name, path, False, st)
            return st[name]
        if name in CONCRETISING:
            if name not in Importer.shared:
                Importer.shared[name] = ConcretisingFacade(importlib.import_module(name))
            return Importer.shared[name]
        return importlib.import_module(name)

    def import_(self, name, globals=None, locals=None, fromlist=(), level=0):
        if level:
            pkg = globals.get("__package__") or ""
            parts = pkg.split(".")
            if level > 1:
                parts = parts[:len(parts) - level + 1]
            base = ".".join(parts)
            name = f"{base}.{name}" if name else base
        m = self.load(name)
        if fromlist:
            for a in fromlist:
                if a == "*":
                    continue
                if not hasattr(m, a):
                    try:
                        sub = self.load(f"{name}.{a}")
                    except ModuleNotFoundError:
                        continue
                    try:
                        setattr(m, a, sub)
                    except AttributeError:
                        pass
            return m
        top = name.partition(".")[0]
        if top != name:
            t = self.load(top)
            # make the attribute chain of "import a.b" resolvable
            if isinstance(t, Facade):
                setattr(t, name.split(".")[1], m)
            return t
        return m
