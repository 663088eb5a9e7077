"""AST instrumentation and import hook: the encoding of /repo's current source is
regenerated from the files on disk at every run."""
from __future__ import annotations

import ast
import importlib.abc
import importlib.machinery
import os
import sys

RAW_CALLS = {"super", "locals", "globals", "vars", "eval", "exec", "dir", "__import__"}


def _name(n):
    return ast.Name(id=n, ctx=ast.Load())


def _call(fn, *args, keywords=()):
    return ast.Call(func=_name(fn), args=list(args), keywords=list(keywords))


class Xf(ast.NodeTransformer):
    def __init__(self, modname, stmt_steps=False):
        self.mod = modname
        self.stack = []
        self.stmt_steps = stmt_steps

    # ---- scopes
    def _fn(self, node):
        node.decorator_list = node.decorator_list  # decorators stay raw
        self.stack.append(node.name)
        qual = self.mod + ":" + ".".join(self.stack)
        node.args.defaults = [self.visit(d) for d in node.args.defaults]
        node.args.kw_defaults = [self.visit(d) if d else d for d in node.args.kw_defaults]
        body = self._body(node.body)
        enter = ast.Expr(_call("_sx_enter", ast.Constant(qual)))
        k = 0
        if body and isinstance(body[0], ast.Expr) and isinstance(body[0].value, ast.Constant) \
                and isinstance(body[0].value.value, str):
            k = 1
        node.body = body[:k] + [enter] + body[k:]
        self.stack.pop()
        return node

    visit_FunctionDef = _fn
    visit_AsyncFunctionDef = _fn

    def visit_ClassDef(self, node):
        self.stack.append(node.name)
        node.body = self._body(node.body)
        self.stack.pop()
        return node

    def _body(self, stmts):
        out = []
        for s in stmts:
            if self.stmt_steps and self.stack and not isinstance(
                    s, (ast.FunctionDef, ast.ClassDef, ast.Global, ast.Nonlocal)):
                out.append(ast.copy_location(ast.Expr(_call("_sx_stmt")), s))
            r = self.visit(s)
            if isinstance(r, list):
                out.extend(r)
            elif r is not None:
                out.append(r)
        return out

    def generic_stmt_lists(self, node, fields):
        for f in fields:
            v = getattr(node, f, None)
            if v:
                setattr(node, f, self._body(v))

    def visit_If(self, node):
        node.test = self.visit(node.test)
        self.generic_stmt_lists(node, ("body", "orelse"))
        return node

    def visit_For(self, node):
        node.target = self.visit(node.target)
        node.iter = self.visit(node.iter)
        self.generic_stmt_lists(node, ("body", "orelse"))
        node.body.insert(0, ast.Expr(_call("_sx_step")))
        return node

    def visit_While(self, node):
        node.test = self.visit(node.test)
        self.generic_stmt_lists(node, ("body", "orelse"))
        node.body.insert(0, ast.Expr(_call("_sx_step")))
        return node

    def visit_With(self, node):
        node.items = [self.visit(i) for i in node.items]
        self.generic_stmt_lists(node, ("body",))
        return node

    def visit_Try(self, node):
        self.generic_stmt_lists(node, ("body", "orelse", "finalbody"))
        hs = []
        for h in node.handlers:
            broad = h.type is None or (isinstance(h.type, ast.Name) and h.type.id == "BaseException")
            if broad:
                hs.append(ast.ExceptHandler(type=_name("_sx_Control"), name=None,
                                            body=[ast.Raise(exc=None, cause=None)]))
            if h.type is not None:
                h.type = self.visit(h.type)
            h.body = self._body(h.body)
            hs.append(h)
        node.handlers = hs
        return node

    # ---- annotations stay raw
    def visit_AnnAssign(self, node):
        if node.value is None:
            return node
        node.value = self.visit(node.value)
        if isinstance(node.target, ast.Subscript):
            return self._setitem(node.target, node.value, node)
        return node

    # ---- expressions
    def visit_Compare(self, node):
        self.generic_visit(node)
        if len(node.ops) == 1:
            fn = {ast.In: "_sx_in", ast.NotIn: "_sx_notin", ast.Is: "_sx_is",
                  ast.IsNot: "_sx_isnot"}.get(type(node.ops[0]))
            if fn:
                return ast.copy_location(_call(fn, node.left, node.comparators[0]), node)
        return node

    def _key(self, sl):
        if isinstance(sl, ast.Slice):
            n = ast.Constant(None)
            return _call("slice", *[self.visit(x) if x is not None else n
                                    for x in (sl.lower, sl.upper, sl.step)])
        if isinstance(sl, ast.Tuple):
            return ast.Tuple([self._key(e) for e in sl.elts], ast.Load())
        return self.visit(sl)

    def visit_Subscript(self, node):
        if isinstance(node.ctx, ast.Load):
            return ast.copy_location(
                _call("_sx_getitem", self.visit(node.value), self._key(node.slice)), node)
        self.generic_visit(node)
        return node

    def _setitem(self, tgt, value, node):
        return ast.copy_location(ast.Expr(
            _call("_sx_setitem", value, self.visit(tgt.value), self._key(tgt.slice))), node)

    def visit_Assign(self, node):
        if len(node.targets) == 1 and isinstance(node.targets[0], ast.Subscript):
            return self._setitem(node.targets[0], self.visit(node.value), node)
        self.generic_visit(node)
        return node

    def visit_Delete(self, node):
        out = []
        for t in node.targets:
            if isinstance(t, ast.Subscript):
                out.append(ast.copy_location(ast.Expr(
                    _call("_sx_delitem", self.visit(t.value), self._key(t.slice))), node))
            else:
                out.append(ast.copy_location(ast.Delete([t]), node))
        return out

    def visit_Call(self, node):
        if isinstance(node.func, ast.Name) and node.func.id in RAW_CALLS:
            self.generic_visit(node)
            return node
        self.generic_visit(node)
        return ast.copy_location(
            ast.Call(func=_name("_sx_call"), args=[node.func] + node.args,
                     keywords=node.keywords), node)

    def visit_JoinedStr(self, node):
        parts = []
        for v in node.values:
            if isinstance(v, ast.Constant):
                parts.append(v)
            else:
                spec = self.visit(v.format_spec) if v.format_spec is not None else ast.Constant("")
                parts.append(ast.Tuple([self.visit(v.value), ast.Constant(v.conversion), spec],
                                       ast.Load()))
        return ast.copy_location(_call("_sx_fstr", *parts), node)

    def visit_BinOp(self, node):
        self.generic_visit(node)
        if isinstance(node.op, ast.Mod):
            return ast.copy_location(_call("_sx_mod", node.left, node.right), node)
        if isinstance(node.op, (ast.BitOr, ast.BitAnd)):
            return ast.copy_location(_call("_sx_bit", ast.Constant(isinstance(node.op, ast.BitOr)), node.left, node.right), node)
        return node

    def visit_AugAssign(self, node):
        self.generic_visit(node)
        if isinstance(node.op, (ast.BitOr, ast.BitAnd)) and isinstance(node.target, ast.Name):
            v = ast.copy_location(_call("_sx_ibit", ast.Constant(isinstance(node.op, ast.BitOr)), ast.Name(node.target.id, ast.Load()), node.value), node)
            return ast.copy_location(ast.Assign([node.target], v), node)
        return node

    def visit_Dict(self, node):
        const = all(isinstance(k, ast.Constant) for k in node.keys)
        self.generic_visit(node)
        if const:
            return node
        items = [ast.Tuple([k if k is not None else _name("_sx_STAR"), v], ast.Load())
                 for k, v in zip(node.keys, node.values)]
        return ast.copy_location(_call("_sx_mkdict", ast.List(items, ast.Load())), node)

    def visit_Set(self, node):
        self.generic_visit(node)
        return ast.copy_location(_call("_sx_mkset", ast.List(node.elts, ast.Load())), node)

    def visit_DictComp(self, node):
        self.generic_visit(node)
        gen = ast.ListComp(elt=ast.Tuple([node.key, node.value], ast.Load()),
                           generators=node.generators)
        return ast.copy_location(_call("_sx_mkdict", gen), node)

    def visit_SetComp(self, node):
        self.generic_visit(node)
        gen = ast.ListComp(elt=node.elt, generators=node.generators)
        return ast.copy_location(_call("_sx_mkset", gen), node)


def transform(src, filename, modname, stmt_steps=False):
    tree = ast.parse(src, filename)
    x = Xf(modname, stmt_steps)
    tree.body = x._body(tree.body)
    ast.fix_missing_locations(tree)
    return compile(tree, filename, "exec", dont_inherit=True)


class Loader(importlib.abc.Loader):
    def __init__(self, fullname, path, hook):
        self.fullname, self.path, self.hook = fullname, path, hook

    def create_module(self, spec):
        return None

    def get_source(self, fullname):
        with open(self.path, encoding="utf-8") as f:
            return f.read()

    def get_filename(self, fullname):
        return self.path

    def exec_module(self, module):
        from . import rt
        with open(self.path, encoding="utf-8") as f:
            src = f.read()
        steps = self.hook.stmt_steps and self.fullname.partition(".")[0] == "skops"
        code = transform(src, self.path, self.fullname, steps)
        module.__dict__.update(rt.INJECT)
        module.__dict__["_sx_instrumented"] = True
        exec(code, module.__dict__)


class Finder(importlib.abc.MetaPathFinder):
    """Instrument every module of ``prefixes`` found under ``roots``."""

    def __init__(self, roots, prefixes, stmt_steps=False):
        self.roots = [os.path.realpath(r) for r in roots]
        self.prefixes = tuple(prefixes)
        self.stmt_steps = stmt_steps
        self.files = []

    def _want(self, name):
        if ".tests" in name or name.endswith("conftest"):
            return False
        return any(name == p or name.startswith(p + ".") for p in self.prefixes)

    def find_spec(self, fullname, path=None, target=None):
        if not self._want(fullname):
            return None
        spec = importlib.machinery.PathFinder.find_spec(
            fullname, path if path is not None else [*self.roots, *EXTRA_ROOTS])
        if spec is None or not spec.origin or not spec.origin.endswith(".py"):
            return spec
        self.files.append(spec.origin)
        new = importlib.machinery.ModuleSpec(
            fullname, Loader(fullname, spec.origin, self), origin=spec.origin,
            is_package=spec.submodule_search_locations is not None)
        new.submodule_search_locations = spec.submodule_search_locations
        new.has_location = True
        return new


EXTRA_ROOTS: list = []


def install(roots, prefixes, stmt_steps=False):
    f = Finder(roots, prefixes, stmt_steps)
    for m in list(sys.modules):
        if f._want(m):
            del sys.modules[m]
    for r in reversed(list(roots)):
        if r in sys.path:
            sys.path.remove(r)
        sys.path.insert(0, r)
    sys.meta_path.insert(0, f)
    return f


def wants_steps(here, name):
    """STMT_STEPS = True of a harness module: a call before each statement of skops."""
    return "\nSTMT_STEPS = True\n" in open(os.path.join(here, name + ".py"), encoding="utf-8").read()


def harness_prefixes(here, name):
    """INSTRUMENT = [...] of a harness module: further modules to execute symbolically."""
    tree = ast.parse(open(os.path.join(here, name + ".py"), encoding="utf-8").read())
    for n in tree.body:
        if isinstance(n, ast.Assign) and getattr(n.targets[0], "id", "") == "INSTRUMENT":
            return ast.literal_eval(n.value)
    return []
