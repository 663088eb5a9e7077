"""Deep structural equality of object graphs, uninstrumented in both modes."""
import functools
import operator
import types

import numpy as np


SEEDSEQ = True        # compare the seed sequences of Generators


def same(a, b):
    try:
        return _same(a, b, {}, 0)
    except RecursionError:
        return False
    except Exception:      # objects left in a state in which they cannot be read
        return None


def _arr(a, b, seen, d):
    if a.dtype != b.dtype or a.shape != b.shape:
        return False
    if a.dtype == object:
        return all(_same(x, y, seen, d + 1) for x, y in zip(a.ravel().tolist(), b.ravel().tolist()))
    if a.dtype.names:      # padding bytes differ
        return all(_arr(a[n], b[n], seen, d + 1) for n in a.dtype.names)
    if a.dtype.char in "gG":      # padding bytes differ
        return [repr(x) for x in a.ravel()] == [repr(x) for x in b.ravel()]
    return a.tobytes() == b.tobytes()


def _same(a, b, seen, d):
    if a is b:
        return True
    t = type(a)
    if t is not type(b):
        return False
    key = (id(a), id(b))
    if key in seen:
        return True
    if t in (bool, int, str, bytes, bytearray, type(None), complex):
        return a == b and repr(a) == repr(b)
    if t is float:
        return repr(a) == repr(b)
    if isinstance(a, np.generic):
        if isinstance(a, np.void) and a.dtype.names and a.dtype == b.dtype:
            return all(_same(a[n], b[n], seen, d + 1) for n in a.dtype.names)
        if isinstance(a, (np.str_, np.bytes_)):
            return a == b and len(a) == len(b)
        if a.dtype.char in "gG":      # padding bytes differ
            return repr(a) == repr(b)
        return a.dtype == b.dtype and (a.tobytes() == b.tobytes() if a.dtype != object else _same(a.item(), b.item(), seen, d))
    seen[key] = (a, b)
    if isinstance(a, np.ma.MaskedArray):
        return (_arr(np.asarray(a.data), np.asarray(b.data), seen, d)
                and np.array_equal(np.ma.getmaskarray(a), np.ma.getmaskarray(b))
                and (a.mask is np.ma.nomask) == (b.mask is np.ma.nomask)
                and a.hardmask == b.hardmask and _same(a.fill_value, b.fill_value, seen, d))
    if isinstance(a, np.ndarray):
        return _arr(a, b, seen, d) and _same(getattr(a, "__dict__", None), getattr(b, "__dict__", None), seen, d)
    if isinstance(a, dict):
        if len(a) != len(b):
            return False
        for (k, v), (k2, v2) in zip(a.items(), b.items()):
            if not _same(k, k2, seen, d) or not _same(v, v2, seen, d):
                return False
        return _same(getattr(a, "default_factory", None), getattr(b, "default_factory", None), seen, d)
    if isinstance(a, (list, tuple)):
        return (len(a) == len(b) and all(_same(x, y, seen, d) for x, y in zip(a, b))
                and _same(getattr(a, "__dict__", None), getattr(b, "__dict__", None), seen, d))
    if isinstance(a, (set, frozenset)):
        if len(a) != len(b):
            return False
        rest = list(b)
        for x in a:
            for i, y in enumerate(rest):
                if _same(x, y, seen, d):
                    del rest[i]
                    break
            else:
                return False
        return True
    if isinstance(a, functools.partial):
        return (_same(a.func, b.func, seen, d) and _same(a.args, b.args, seen, d)
                and _same(a.keywords, b.keywords, seen, d) and _same(vars(a), vars(b), seen, d))
    if isinstance(a, (types.FunctionType, types.BuiltinFunctionType, type, np.ufunc)):
        if isinstance(a, types.BuiltinFunctionType) and a.__self__ is not None \
                and not isinstance(a.__self__, types.ModuleType):
            return a.__name__ == b.__name__ and _same(a.__self__, b.__self__, seen, d)
        return a is b
    if isinstance(a, types.MethodType):
        return a.__func__ is b.__func__ and _same(a.__self__, b.__self__, seen, d)
    if isinstance(a, slice):
        return _same((a.start, a.stop, a.step), (b.start, b.stop, b.step), seen, d)
    if isinstance(a, np.dtype):
        return a == b and a.descr == b.descr if a.names else a == b
    if isinstance(a, np.random.Generator):
        return _same(a.bit_generator.state, b.bit_generator.state, seen, d) and \
            (not SEEDSEQ or _same(a.bit_generator.seed_seq.state, b.bit_generator.seed_seq.state, seen, d)) \
            and type(a.bit_generator) is type(b.bit_generator)
    if isinstance(a, np.random.RandomState):
        return _same(a.get_state(legacy=False), b.get_state(legacy=False), seen, d)
    if isinstance(a, (operator.attrgetter, operator.itemgetter, operator.methodcaller)):
        return _same(a.__reduce__()[1], b.__reduce__()[1], seen, d)
    if type(a).__module__.startswith("scipy.sparse"):
        return a.shape == b.shape and a.format == b.format and a.dtype == b.dtype \
            and _same(sparse_state(a), sparse_state(b), seen, d)
    r = None
    if hasattr(a, "__dict__"):
        return _same(vars(a), vars(b), seen, d)
    try:
        r, r2 = a.__reduce__(), b.__reduce__()
    except Exception:
        return a == b
    if isinstance(r, tuple) and isinstance(r2, tuple):
        return _same(tuple(r[1:]), tuple(r2[1:]), seen, d)
    return a == b


def sparse_state(m):
    c = m.tocoo()
    return [np.asarray(c.row), np.asarray(c.col), np.asarray(c.data)]


same._sx_direct = True
