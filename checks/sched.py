"""Two real threads that run skops, switched at chosen statements of its code (uninstrumented)."""
import ast
import builtins
import importlib.abc
import importlib.machinery
import os
import sys
import threading

REPLAY = os.environ.get("SX_REPLAY") == "1"
HOOK = []


class Steps(ast.NodeTransformer):
    """Only inserts a call before every statement inside of functions (for the replay)."""

    def __init__(self):
        self.depth = 0

    def body(self, stmts):
        out = []
        for s in stmts:
            if self.depth and not isinstance(s, (ast.FunctionDef, ast.ClassDef, ast.Global, ast.Nonlocal)):
                out.append(ast.copy_location(ast.Expr(ast.Call(ast.Name("_sx_stmt", ast.Load()), [], [])), s))
            out.append(self.visit(s))
        return out

    def generic_visit(self, node):
        scope = isinstance(node, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef))
        self.depth += scope
        for f in ("body", "orelse", "finalbody"):
            v = getattr(node, f, None)
            if isinstance(v, list):
                setattr(node, f, self.body(v))
        for h in getattr(node, "handlers", []) + getattr(node, "cases", []):
            h.body = self.body(h.body)
        self.depth -= scope
        return node


class Loader(importlib.machinery.SourceFileLoader):
    def get_code(self, fullname):
        tree = ast.parse(self.get_data(self.path), self.path)
        x = Steps()
        tree.body = x.body(tree.body)
        ast.fix_missing_locations(tree)
        return compile(tree, self.path, "exec", dont_inherit=True)


class Finder(importlib.abc.MetaPathFinder):
    def find_spec(self, fullname, path=None, target=None):
        if not (fullname == "skops" or fullname.startswith("skops.")) or ".tests" in fullname:
            return None
        spec = importlib.machinery.PathFinder.find_spec(fullname, path)
        if spec is not None and spec.origin and spec.origin.endswith(".py"):
            spec.loader = Loader(fullname, spec.origin)
        return spec


def install():
    """Yield points in the code; in the replay otherwise unmodified."""
    if REPLAY:
        builtins._sx_stmt = lambda: HOOK[0]() if HOOK else None
        sys.meta_path.insert(0, Finder())
    else:
        from symx import rt
        rt.STMT_HOOK[:] = [lambda: HOOK[0]() if HOOK else None]


def count(f, now):
    """(result of f, number of statements of skops it executed, those of them before which state
    that outlives the call is about to change or has just changed, and those before which it is in
    addition not what it was before the call)"""
    n, last, near, at = [0], [now()], set(), set()
    start = last[0]

    def hook():
        cur = now()
        if cur != start:
            near.add(n[0])
        if cur != last[0]:
            at.update(range(max(0, n[0] - 1), n[0] + 2))
            last[0] = cur
        n[0] += 1
    HOOK[:] = [hook]
    try:
        r = f()
    finally:
        HOOK.clear()
    if now() != last[0]:
        at.update(range(max(0, n[0] - 3), n[0]))
    return r, n[0], [sorted(i for i in s if i < n[0]) for s in (at, near | at)]


class Killed(BaseException):
    pass


class Two:
    """Runs f; before its i-th statement switches to g; before the j-th statement of g (if there is
    one) back to f; when either ends, the other goes on to its end."""

    def __init__(self, f, g, i, j):
        self.fs = [f, g]
        self.at = [i, j]
        self.n = [0, 0]
        self.locks = [threading.Semaphore(0), threading.Semaphore(0)]
        self.done = [False, False]
        self.res = [None, None]
        self.exc = [None, None]
        self.who = {}
        self.kill = False
        self.switches = 0

    def hook(self):
        k = self.who.get(threading.get_ident())
        if k is None:
            return
        if self.kill and k:
            raise Killed
        m = self.n[k]
        self.n[k] = m + 1
        if m == self.at[k] and not self.done[1 - k]:
            self.switches += 1
            self.locks[1 - k].release()
            self.locks[k].acquire()
            if self.kill and k:
                raise Killed

    def body(self, k):
        self.who[threading.get_ident()] = k
        if k:
            self.locks[1].acquire()
        try:
            if not (self.kill and k):
                self.res[k] = self.fs[k]()
        except BaseException as e:
            self.exc[k] = e
            if k == 0:
                self.kill = not isinstance(e, Exception)
        self.done[k] = True
        self.locks[1 - k].release()

    def run(self):
        """[result of f, result of g]"""
        t = threading.Thread(target=self.body, args=(1,), daemon=True)
        HOOK[:] = [self.hook]
        try:
            t.start()
            self.body(0)
            t.join()
        finally:
            HOOK.clear()
        for e in self.exc:
            if e is not None and not isinstance(e, Killed):
                raise e
        return self.res


def two(f, g, i, j):
    x = Two(f, g, i, j)
    return x.run(), x.switches


for _f in (install, count, two):
    _f._sx_direct = True
