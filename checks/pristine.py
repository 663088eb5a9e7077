"""Snapshot and restoration of every mutable object reachable from the modules of skops, so
that a call can be observed as the first one of a process again (uninstrumented)."""
import array
import collections
import functools
import io
import itertools
import operator
import random
import sys
import threading
import types
import weakref

import numpy as np

SKIP = ("_sx_", "__")


def _set_buffer(x, s):
    if not x.closed:
        x.seek(0)
        x.truncate()
        x.write(s[1])
        x.seek(s[0])


# mutable objects of libraries: how to read and to set what they hold
_BUFFER = (lambda x: None if x.closed else (x.tell(), x.getvalue()), _set_buffer)
PROBES = {io.BytesIO: _BUFFER, io.StringIO: _BUFFER, random.Random: (lambda x: x.getstate(), lambda x, s: x.setstate(s)),
          array.array: (lambda x: x[:], lambda x, s: x.__setitem__(slice(None), s)),
          itertools.count: (repr, lambda x, s: None),
          np.random.RandomState: (lambda x: repr(x.get_state()), lambda x, s: None),
          np.random.Generator: (lambda x: repr(x.bit_generator.state), lambda x, s: None),
          np.ndarray: (lambda x: x.tobytes(), lambda x, s: None)}


class State:
    def __init__(self):
        self.seen = {}          # id -> object (kept alive)
        self.saved = []         # (object, kind, copy)
        self.caches = []
        self.probes = []        # (object, (get, set), state)
        for n, m in sorted(sys.modules.items()):
            if self.ours(n) and m is not None:
                self.walk(m, 0)

    @staticmethod
    def ours(n):
        return (n == "skops" or n.startswith("skops.")) and ".tests" not in n and "conftest" not in n

    @staticmethod
    def plain(x, t, d):
        """An instance of some class of the libraries, held by skops itself."""
        return d <= 6 and type(getattr(x, "__dict__", None)) is dict and not callable(x) and not hasattr(t, "__get__") \
            and (t.__module__ or "").split(".")[0] not in ("logging", "sklearn", "pandas", "importlib")

    def walk(self, x, d):
        if d > 60 or isinstance(x, (str, int, float, complex, bytes, type(None))) or id(x) in self.seen:
            return
        t = type(x)
        if t is types.ModuleType:
            if self.ours(x.__name__):
                self.seen[id(x)] = x
                d0 = x.__dict__
                self.saved.append((d0, "dict", dict(d0)))
                for k, v in list(d0.items()):
                    if not k.startswith(SKIP):
                        self.walk(v, d + 1)
            return
        self.seen[id(x)] = x
        if isinstance(x, dict):
            self.saved.append((x, "dict", dict(x)))
            for v in list(x.values()):
                self.walk(v, d + 1)
        elif isinstance(x, list):
            self.saved.append((x, "list", list(x)))
            for v in x:
                self.walk(v, d + 1)
        elif isinstance(x, (set, bytearray, collections.deque)):
            self.saved.append((x, "set" if isinstance(x, set) else "seq", t(x) if t is not bytearray else bytearray(x)))
        elif isinstance(x, (tuple, frozenset)):
            for v in x:
                self.walk(v, d + 1)
        elif isinstance(x, (weakref.WeakKeyDictionary, weakref.WeakValueDictionary)):
            self.saved.append((x, "dict", dict(x)))
        elif isinstance(x, type):
            if self.ours(x.__module__ or ""):
                own = {k: v for k, v in vars(x).items() if k not in ("__dict__", "__weakref__", "__doc__")}
                self.saved.append((x, "class", own))
                for v in own.values():
                    self.walk(v, d + 1)
        elif isinstance(x, types.FunctionType):
            if self.ours(x.__module__ or "") or x.__closure__:
                for part in (x.__defaults__, x.__kwdefaults__, x.__dict__):
                    self.walk(part, d + 1)
                for c in x.__closure__ or ():
                    try:
                        v = c.cell_contents
                    except ValueError:
                        continue
                    self.saved.append((c, "cell", v))
                    self.walk(v, d + 1)
        elif isinstance(x, (staticmethod, classmethod)):
            self.walk(x.__func__, d + 1)
        elif isinstance(x, property):
            for f in (x.fget, x.fset, x.fdel):
                self.walk(f, d + 1)
        elif isinstance(x, functools.partial):
            self.walk((x.func, x.args, x.keywords, x.__dict__), d + 1)
        elif isinstance(x, types.MethodType):
            self.walk((x.__func__, x.__self__), d + 1)
        elif hasattr(t, "cache_clear"):
            self.caches.append(x)
            self.walk(getattr(x, "__wrapped__", None), d + 1)
        elif isinstance(x, threading.local):
            self.saved.append((x.__dict__, "dict", dict(x.__dict__)))
        elif isinstance(x, tuple(PROBES)):
            probe = next(p for b, p in PROBES.items() if isinstance(x, b))
            self.probes.append((x, probe, probe[0](x)))
        elif self.ours(getattr(t, "__module__", "") or "") or self.plain(x, t, d):
            if hasattr(x, "__dict__"):
                self.walk(x.__dict__, d + 1)
            for k in getattr(t, "__slots__", ()) if not isinstance(getattr(t, "__slots__", ()), str) else ():
                self.walk(getattr(x, k, None), d + 1)

    def restore(self):
        for c in self.caches:
            c.cache_clear()
        for x, (get, put), old in self.probes:
            if get(x) != old:
                put(x, old)
        for x, kind, old in self.saved:
            if kind == "dict":
                if len(x) != len(old) or any(a is not b for a, b in zip(x, old)) or any(a is not b for a, b in zip(x.values(), old.values())):
                    x.clear()
                    x.update(old)
            elif kind == "list":
                if len(x) != len(old) or any(a is not b for a, b in zip(x, old)):
                    x[:] = old
            elif kind == "set":
                if len(x) != len(old) or not x <= old:
                    x.clear()
                    x.update(old)
            elif kind == "seq":
                if x != old:
                    x.clear()
                    x.extend(old)
            elif kind == "cell":
                if x.cell_contents is not old:
                    x.cell_contents = old
            else:
                cur = vars(x)
                for k in [k for k in cur if k not in old and k not in ("__dict__", "__weakref__", "__doc__")]:
                    try:
                        delattr(x, k)
                    except (AttributeError, TypeError):
                        pass
                for k, v in old.items():
                    if cur.get(k) is not v:
                        try:
                            setattr(x, k, v)
                        except (AttributeError, TypeError):
                            pass


    def watch(self):
        """A function that tells (quickly) which of the mutable objects are not as they were."""
        is_ = operator.is_
        ms = [(i, x if kind == "dict" else vars(x), list(old.values()) if kind == "dict" else [vars(x)[k] for k in vars(x)])
              for i, (x, kind, old) in enumerate(self.saved) if kind in ("dict", "class")]
        ls = [(i, x, list(old)) for i, (x, kind, old) in enumerate(self.saved) if kind in ("list", "seq")]
        ss = [(i, x, old) for i, (x, kind, old) in enumerate(self.saved) if kind == "set"]
        cs = [(i, x, old) for i, (x, kind, old) in enumerate(self.saved) if kind == "cell"]
        lrus = [(c, c.cache_info) for c in self.caches if hasattr(c, "cache_info")]

        objs = [x for _, x, _ in ms + ls + ss]
        lens = list(map(len, objs))
        dicts = [x for _, x, old in ms if old]
        seqs = [x for _, x, old in ls]
        flat = [v for _, _, old in ms for v in old]
        seqs0 = [old for _, _, old in ls]
        values = operator.methodcaller("values")
        chain = itertools.chain
        sets = [x for _, x, _ in ss]
        sets0 = [old for _, _, old in ss]
        probes = self.probes

        def moved():
            return [(id(x), repr(get(x))) for x, (get, put), old in probes if get(x) != old]

        def clean():
            return (list(map(len, objs)) == lens and all(map(is_, chain.from_iterable(map(values, dicts)), flat))
                    and seqs == seqs0
                    and sets == sets0 and not any(f().currsize for _, f in lrus) and not any(x.cell_contents is not old for _, x, old in cs))

        def now():
            out = moved()
            if not out and clean():
                return out
            for i, x, old in ms:
                if len(x) != len(old) or not all(map(is_, x.values(), old)):
                    out.append((i, tuple(map(id, x.values()))))
            for i, x, old in ls:
                if len(x) != len(old) or not all(map(is_, x, old)):
                    out.append((i, tuple(map(id, x))))
            for i, x, old in ss:
                if len(x) != len(old) or x != old:
                    out.append((i, len(x)))
            for i, x, old in cs:
                if x.cell_contents is not old:
                    out.append((i, id(x.cell_contents)))
            for c, f in lrus:
                n = f().currsize
                if n:
                    out.append((id(c), n))
            return out
        return now


_state = []


def watch():
    return _state[0].watch()


def save():
    _state[:] = [State()]


def restore():
    _state[0].restore()


save._sx_direct = restore._sx_direct = watch._sx_direct = True
