"""The documented default-trusted families, decided on the real objects, independently of
the lists skops computes.  Executed uninstrumented in both modes."""
import builtins
import collections
import functools
import importlib
import operator
import types

import numpy as np

_PRIM = {int, float, complex, str, bytes, bytearray, bool, type(None), list, tuple, set, frozenset, dict,
         slice, collections.OrderedDict, collections.defaultdict}
_TYPES_ONLY = {map}


def _np_types():
    s = {np.ndarray, np.ma.MaskedArray, np.dtype, np.random.RandomState, np.random.Generator,
         np.random.SeedSequence}
    return s


def is_family(o):
    """A type/function object that belongs to a documented default-trusted family."""
    if isinstance(o, type):
        if o in _PRIM or o in _TYPES_ONLY or o in _np_types():
            return True
        if issubclass(o, (np.generic, np.dtype)):
            return (o.__module__ or "").split(".")[0] == "numpy"
        from numpy.random import BitGenerator
        if issubclass(o, BitGenerator):
            return o.__module__.startswith("numpy.random")
        import scipy.sparse as sp
        if issubclass(o, sp.spmatrix) or o is sp.spmatrix:
            return o.__module__.startswith("scipy.sparse")
        from sklearn.base import BaseEstimator
        if issubclass(o, BaseEstimator):
            return o.__module__.startswith("sklearn.")
        from sklearn.tree._tree import Tree
        if o is Tree:
            return True
        return o in _losses()
    if isinstance(o, np.ufunc):
        return _ufunc_known(o)
    return False


@functools.lru_cache(None)
def _losses():
    out = set()
    import sklearn._loss._loss as a
    import sklearn.linear_model._sgd_fast as b
    for mod, roots in ((a, ("CyLossFunction",)), (b, ("LossFunction",))):
        for r in roots:
            base = getattr(mod, r, None)
            if base is None:
                continue
            for v in vars(mod).values():
                if isinstance(v, type) and issubclass(v, base):
                    out.add(v)
    return out


@functools.lru_cache(None)
def _ufuncs():
    import scipy.special
    out = []
    for m in (np, scipy.special):
        for n in dir(m):
            v = getattr(m, n)
            if isinstance(v, np.ufunc):
                out.append(v)
    return out


def _ufunc_known(o):
    return any(o is v for v in _ufuncs())


def resolve(module, name):
    """The real object, for harmless names only."""
    return getattr(importlib.import_module(module), name)


def family_name(module, name):
    if module.startswith("sxcan"):
        return False
    try:
        return is_family(resolve(module, name))
    except Exception:
        return False


def _fullname(o):
    if isinstance(o, types.ModuleType):
        return o.__name__
    m = getattr(o, "__module__", None) or ""
    q = getattr(o, "__qualname__", None) or getattr(o, "__name__", "?")
    s = getattr(o, "__self__", None)
    if s is not None and not isinstance(s, types.ModuleType):
        c = s if isinstance(s, type) else type(s)
        return f"{c.__module__}.{c.__qualname__}.{o.__name__}"
    return f"{m}.{q}"


def code_objects(x, cap=4000):
    """Names and objects of everything in x's object graph that is code or whose type is
    not a documented default: [(kind, fullname, object)]"""
    out, seen, todo = [], set(), [x]
    while todo:
        v = todo.pop()
        if id(v) in seen:
            continue
        seen.add(id(v))
        if len(seen) > cap:
            break
        t = type(v)
        if t is property:
            out.append(("object", _fullname(v.fget), v))
            continue
        if isinstance(v, type) or isinstance(v, (types.FunctionType, types.BuiltinFunctionType,
                                                 types.MethodType, types.ModuleType, np.ufunc)) \
                or t.__name__ in ("_ArrayFunctionDispatcher", "method-wrapper", "wrapper_descriptor",
                                  "method_descriptor", "getset_descriptor", "mappingproxy",
                                  "cython_function_or_method", "code", "generator"):
            if not is_family(v):
                out.append(("object", _fullname(v), v))
            if isinstance(v, types.MethodType):
                todo.append(v.__self__)
            continue
        if t is functools.partial:
            out.append(("instance", "functools.partial", t))
            todo += [v.func, v.args, v.keywords, vars(v)]
            continue
        if t in (operator.attrgetter, operator.itemgetter, operator.methodcaller):
            out.append(("instance", "operator." + t.__name__, t))
            continue
        if not is_family(t):
            out.append(("instance", f"{t.__module__}.{t.__qualname__}", t))
        if isinstance(v, dict):
            todo += list(v.keys()) + list(v.values())
            if isinstance(v, collections.defaultdict):
                todo.append(v.default_factory)
        elif isinstance(v, (list, tuple, set, frozenset)):
            todo += list(v)
        elif isinstance(v, np.ndarray) and v.dtype == object:
            todo += v.ravel().tolist()
        d = getattr(v, "__dict__", None)
        if isinstance(d, dict):
            todo += list(d.values())
    return out


for _f in (is_family, resolve, family_name, code_objects):
    _f._sx_direct = True


def aliases(o, pairs):
    """The names in pairs that resolve to o (modules already imported only)."""
    import sys
    out = []
    for m, c in pairs:
        mod = sys.modules.get(m)
        if mod is not None:
            try:
                if getattr(mod, c) is o:
                    out.append(m + "." + c)
            except Exception:
                pass
    return out


aliases._sx_direct = True
