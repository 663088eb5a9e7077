"""Identity partitions of object graphs and an adversarial allocator (uninstrumented)."""
import builtins
import functools
import io
import sys
import types
import zipfile

import numpy as np
import scipy.sparse as sp

from direct import issym


def mutable(x):
    return isinstance(x, (list, dict, set, bytearray, np.ndarray, np.random.RandomState, np.random.Generator)) or sp.issparse(x) \
        or (hasattr(x, "__dict__") and not isinstance(x, (type, types.FunctionType, types.BuiltinFunctionType, functools.partial, np.ufunc))
            and not callable(x))


def children(x):
    """The sub-objects of x by position."""
    if issym(x):
        return []
    if isinstance(x, (list, tuple)):
        return list(x)
    if isinstance(x, dict):
        return list(x.values())
    if isinstance(x, np.ma.MaskedArray):
        return x.data.ravel().tolist() if x.dtype == object else []
    if isinstance(x, np.ndarray):
        return x.ravel().tolist() if x.dtype == object else []
    if isinstance(x, functools.partial):
        return [*x.args, *x.keywords.values(), *vars(x).values()]
    if isinstance(x, types.MethodType):
        return [x.__self__]
    if sp.issparse(x) or isinstance(x, (np.random.RandomState, np.random.Generator, type, types.FunctionType)):
        return []
    if hasattr(x, "__dict__"):
        return list(vars(x).values())
    return []


def partition(a, b):
    """'' if the two graphs share objects in the same way."""
    fwd, back, keep, done = {}, {}, [], set()

    def go(x, y, path):
        if issym(x) or issym(y) or len(path) > 400:
            return ""
        if mutable(x):
            keep.append((x, y))
            if id(x) in fwd and fwd[id(x)] is not y:
                return "one object was loaded as two"
            if id(y) in back and back[id(y)] is not x:
                return "two objects were loaded as one"
            first = id(x) not in fwd
            fwd[id(x)], back[id(y)] = y, x
            if not first:
                return ""
        cx, cy = children(x), children(y)
        if len(cx) != len(cy):
            return "the loaded graph has another shape"
        for i, (p, q) in enumerate(zip(cx, cy)):
            m = go(p, q, path + (i,))
            if m:
                return m
        return ""
    return go(a, b, ())


def arrays(x):
    """Number of different arrays and sparse matrices that are stored as members."""
    seen, todo, n = {}, [x], {"npy": 0, "npz": 0}
    while todo:
        y = todo.pop()
        if issym(y) or id(y) in seen:
            continue
        seen[id(y)] = y
        if sp.issparse(y):
            n["npz"] += 1
        elif isinstance(y, np.ma.MaskedArray):
            pass
        elif isinstance(y, np.ndarray) and y.dtype != object:
            n["npy"] += 1
        todo += children(y)
    return n


def plain_arrays(x):
    """No part of x makes arrays of its own when it is stored."""
    seen, todo = {}, [x]
    while todo:
        y = todo.pop()
        if issym(y) or id(y) in seen:
            continue
        seen[id(y)] = y
        if isinstance(y, (np.ma.MaskedArray, np.random.RandomState, np.random.Generator, np.generic, np.dtype)):
            return False
        if sp.issparse(y) and not isinstance(y, sp.spmatrix):      # an object with arrays as attributes
            return False
        todo += children(y)
    return True


def members(data):
    with zipfile.ZipFile(io.BytesIO(data)) as z:
        names = z.namelist()
    return {e: sum(n.endswith("." + e) for n in names) for e in ("npy", "npz")}


class Allocator:
    """id() of an allocator that gives the address of a dead object to a new one.

    All objects asked for are kept here; one that nobody else refers to is dead: its address may be
    reused.  when: number of the reuse that takes place (-1: every one); which: newest or oldest."""
    _sx_direct = True
    _sx_faketype = True

    def __init__(self, when, which):
        self.when, self.which = when, which
        self.ids = {}          # real id -> [object, given id]
        self.order = []        # real ids, in order of creation
        self.next = 1 << 40
        self.chances = 0
        self.base = None
        self.base = self._refs(self._probe())

    def _probe(self):
        o = object()
        self.ids[builtins.id(o)] = [o, 0]
        k = builtins.id(o)
        del o
        return k

    def _refs(self, k):
        return sys.getrefcount(self.ids[k][0])

    def __call__(self, x):
        k = builtins.id(x)
        if k in self.ids:
            return self.ids[k][1]
        new = None
        dead = [j for j in self.order if self._refs(j) <= self.base]
        if dead:
            self.chances += 1
            if self.when == -1 or self.chances == self.when + 1:
                j = dead[-1] if self.which == "newest" else dead[0]
                new = self.ids[j][1]
                self.ids[j][1] = -1
                self.order.remove(j)     # its object stays, unreachable, under its own real id
        if new is None:
            self.next += 16
            new = self.next
        self.ids[k] = [x, new]
        self.order.append(k)
        return new


def install(alloc):
    for n, m in list(sys.modules.items()):
        if n.startswith("skops.io") and ".tests" not in n:
            m.__dict__["id"] = alloc


def uninstall():
    for n, m in list(sys.modules.items()):
        if n.startswith("skops.io"):
            m.__dict__.pop("id", None)


for _f in (mutable, children, partition, arrays, plain_arrays, members, install, uninstall):
    _f._sx_direct = True
