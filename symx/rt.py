"""Runtime of the instrumented code: operations that would lose symbolic
information at a C boundary are routed here."""
from __future__ import annotations

import builtins
import functools
import importlib
import json
import re
import types

from .core import HASHED, Control, Engine, cur, step
from .values import (REAL, SYM_TYPES, Ch, SymBool, SymEnum, SymFloat, SymInt, SymStr, ch_map, chars,
                     deep_conc, deep_realize, is_sym, join, lift, mkstr, realize, sym_and,
                     sym_not, sym_or)

MODELS: dict = {}        # callable -> model(*args, **kw)
GETATTR_HOOK: list = []  # fn(obj, name) -> (True, value) | None
EXTERNAL_HOOK: list = []  # fn(f, args, kw) -> (True, value) | None
STAR = object()
_dict_methods = {}
_set_methods = {}


def model(f):
    def deco(g):
        MODELS[f] = g
        return g
    return deco


# ------------------------------------------------------------------- equality
def has_sym(x, depth=3):
    t = type(x)
    if t in SYM_TYPES:
        return True
    if depth <= 0:
        return False
    if t in (tuple, list, set, frozenset):
        return any(has_sym(v, depth - 1) for v in x)
    if t is dict:
        return any(has_sym(k, depth - 1) or has_sym(v, depth - 1) for k, v in x.items())
    return False


def sx_eq(a, b):
    """a == b as bool or SymBool, without forking where possible."""
    if a is b:
        return True
    ta, tb = type(a), type(b)
    if ta is tuple and tb is tuple:
        if len(a) != len(b):
            return False
        return sym_and(*[sx_eq(x, y) for x, y in zip(a, b)])
    if ta in SYM_TYPES or tb in SYM_TYPES:
        if ta not in SYM_TYPES:
            a, b = b, a
        r = type(a).__eq__(a, b)
        if r is NotImplemented:
            return False
        return r
    return a == b


def _hashsym(k):
    return type(k) in SYM_TYPES or (type(k) is tuple and any(_hashsym(v) for v in k))


def _anysym(c):
    """Some key of c is symbolic."""
    if not HASHED[0]:
        return False
    for e in c:
        t = type(e)
        if t in SYM_TYPES or (t is tuple and _hashsym(e)):
            return True
    return False


def dict_find(d, k):
    """Forks over which existing key equals k; returns (True, key) or (False, None)."""
    if not _hashsym(k):
        if dict.__contains__(d, k):
            return True, k
        for e in d if HASHED[0] else ():
            if _hashsym(e):
                r = sx_eq(e, k)
                if r is True or (r is not False and bool(r)):
                    return True, e
        return False, None
    for e in list(d):
        r = sx_eq(k, e)
        if r is True or (r is not False and bool(r)):
            return True, e
    return False, None


def _freeze_key(k):
    """Key with a hash that is the same in every run of a path prefix (sets iterate in hash order)."""
    t = type(k)
    if (t is SymStr or t is SymEnum) and not k._free:
        rs = cur().run_state
        n = rs["free"] = rs.get("free", 0) + 1
        return SymStr(k._ch, n) if t is SymStr else SymEnum(k._i, k._t, k._ci, n)
    return k


CONTAINS_WATCH: list = []   # called with every container a membership test is made in


def sx_contains(c, x):
    """x in c -> bool | SymBool"""
    t = type(c)
    for w in CONTAINS_WATCH:
        w(c)
    if t is SymStr:
        return c._contains(x)
    if t is SymEnum:
        return c.__contains__(x)
    if t is str or (isinstance(c, str)):
        if type(x) is SymStr:
            return SymStr(tuple(c))._contains(x)
        if type(x) is SymEnum:
            return lift(lambda s: s in c, x)
        return x in c
    if t in (list, tuple):
        if type(x) is str and len(c) > 8 and not any(type(e) in SYM_TYPES for e in c):
            return x in c
        if type(x) is SymEnum and len(c) > 8:
            conc = {e for e in c if type(e) is str}
            return sym_or(x.inset(lambda v: v in conc), *[sx_eq(x, e) for e in c if type(e) is not str])
        return sym_or(*[sx_eq(x, e) for e in c])
    if getattr(t, "_sx_direct", False):
        return c.__contains__(x)
    if isinstance(c, (dict, set, frozenset)) or t in (type({}.keys()),):
        if isinstance(c, dict) and getattr(type(c), "_sx_lazy", False):
            return c.__contains__(x)
        if type(x) is SymEnum:
            conc = {e for e in c if type(e) is str}
            rest = [e for e in c if _hashsym(e)]
            return sym_or(x.inset(lambda v: v in conc), *[sx_eq(x, e) for e in rest])
        if _hashsym(x) or _anysym(c):
            return sym_or(*[sx_eq(x, e) for e in c])
        return x in c
    return x in c


def sx_in(x, c):
    return sx_contains(c, x)


def sx_notin(x, c):
    return sym_not(sx_contains(c, x))


def sx_is(a, b):
    if type(a) is SymBool and (b is True or b is False):
        return a if b else sym_not(a)
    if type(b) is SymBool and (a is True or a is False):
        return b if a else sym_not(b)
    return a is b


def sx_isnot(a, b):
    return sym_not(sx_is(a, b))


# ------------------------------------------------------------------- subscripts
def sx_getitem(o, k):
    if isinstance(o, dict) and not getattr(type(o), "_sx_lazy", False):
        if _hashsym(k) or (type(k) is str and _anysym(o)):
            ok, e = dict_find(o, k)
            if ok:
                return dict.__getitem__(o, e) if type(o) is dict else o[e]
            if type(o) is not dict and hasattr(type(o), "__missing__"):
                return type(o).__missing__(o, k)
            raise KeyError(k)
        return o[k]
    if type(k) is SymInt and isinstance(o, (list, tuple, str)):
        return o[k._r()]
    if type(o) in (type,) or isinstance(o, type):
        return o[k]
    if type(k) in SYM_TYPES and not hasattr(type(o), "_sx_symkeys"):
        if type(k) is SymEnum and isinstance(o, Mapping):
            pass
        k = realize(k)
    return o[k]


from collections.abc import Mapping  # noqa: E402


def sx_setitem(v, o, k):
    if isinstance(o, dict) and not getattr(type(o), "_sx_lazy", False) and (
            _hashsym(k) or _anysym(o)):
        ok, e = dict_find(o, k)
        if ok:
            o[e] = v
        else:
            o[_freeze_key(k)] = v
        return
    if type(k) in SYM_TYPES and not hasattr(type(o), "_sx_symkeys"):
        k = realize(k)
    o[k] = v


def sx_delitem(o, k):
    if isinstance(o, dict) and not getattr(type(o), "_sx_lazy", False) and (
            _hashsym(k) or _anysym(o)):
        ok, e = dict_find(o, k)
        if not ok:
            raise KeyError(k)
        del o[e]
        return
    del o[realize(k)]


def mkdict(items):
    d: dict = {}
    for k, v in items:
        if k is STAR:
            for kk in v.keys():
                sx_setitem(v[kk], d, kk)
        else:
            sx_setitem(v, d, k)
    return d


def set_add(s, x):
    if _hashsym(x) or _anysym(s):
        for e in list(s):
            r = sx_eq(x, e)
            if r is True or (r is not False and bool(r)):
                return
        set.add(s, _freeze_key(x))
    else:
        set.add(s, x)


def mkset(items):
    s: set = set()
    for x in items:
        set_add(s, x)
    return s


# ------------------------------------------------------------------ formatting
def sx_fstr(*parts):
    out = []
    for p in parts:
        if type(p) is str:
            out.append(p)
            continue
        v, conv, spec = p
        if conv == 114:
            v = sx_repr(v)
        elif conv == 115:
            v = sx_str(v)
        elif conv == 97:
            v = ascii(realize(v))
        if spec == "":
            v = sx_str(v)
        else:
            v = format(realize(v), realize(spec))
        out.append(v)
    return join("", out)


def sx_repr(v):
    """repr keeping symbolic text inside plain containers."""
    t = type(v)
    if t is SymEnum:
        return lift(repr, v)
    if t is SymStr:
        q = '"' if v.find("'") >= 0 and v.find('"') < 0 else "'"
        body = [c for a in v._ch for c in ch_map(a, lambda x: "\\'" if x == "'" and q == "'" else
                                                 x if x in "'\"" else repr(x)[1:-1])]
        return mkstr([q, *body, q])
    if t in (list, tuple, set, dict) and has_sym(v):
        if t is dict:
            parts = [join("", [sx_repr(k), ": ", sx_repr(x)]) for k, x in v.items()]
        else:
            parts = [sx_repr(x) for x in v]
        o, c = {list: "[]", tuple: "()", set: "{}", dict: "{}"}[t]
        if t is tuple and len(parts) == 1:
            c = ",)"
        return join("", [o, join(", ", parts), c])
    return repr(v)


def sx_str(*a, **k):
    if len(a) == 1 and not k:
        v = a[0]
        if type(v) in (SymStr, SymEnum):
            return v
        if type(v) in (list, tuple, set, dict) and has_sym(v):
            return sx_repr(v)
        h = getattr(type(v), "_sx_str", None)
        if h is not None:
            return h(v)
        return str(v)
    return str(*[realize(x) for x in a], **k)


def sx_mod(a, b):
    if isinstance(a, str):
        if type(b) is tuple:
            b = tuple(realize(x) for x in b)
        else:
            b = realize(b)
        return realize(a) % b
    return a % b


def sx_bit(is_or, a, b):
    # bool | SymBool would be decided by int, for one value only
    if type(a) is bool and type(b) is SymBool:
        return b | a if is_or else b & a
    return a | b if is_or else a & b


def sx_ibit(is_or, a, b):
    if type(a) is bool and type(b) is SymBool:
        return b | a if is_or else b & a
    if is_or:
        a |= b
    else:
        a &= b
    return a


# ----------------------------------------------------------------- std models
def sx_type(*a):
    if len(a) == 1:
        x = a[0]
        t = type(x)
        r = REAL.get(t)
        if r is not None:
            return r
        if getattr(t, "_sx_lazy", False) or getattr(t, "_sx_faketype", False):
            return x.__class__
        return t
    return type(*a)


MODELS[type] = sx_type
MODELS[str] = sx_str


@model(int)
def sx_int(*a, **k):
    if len(a) == 1 and not k:
        v = a[0]
        if type(v) is SymInt:
            return v
        if hasattr(type(v), "_sx_int"):
            return v._sx_int()
    return int(*[realize(x) for x in a], **k)


@model(float)
def sx_float(*a):
    if len(a) == 1 and type(a[0]) is SymFloat:
        return a[0]
    if len(a) == 1 and hasattr(type(a[0]), "_sx_float"):
        return a[0]._sx_float()
    return float(*[realize(x) for x in a])


@model(bool)
def sx_bool(*a):
    if len(a) == 1 and type(a[0]) is SymBool:
        return a[0]
    return bool(*a)


@model(isinstance)
def sx_isinstance(o, t):
    return isinstance(o, t)


@model(len)
def sx_len(o):
    return len(o)


@model(dict)
def sx_dict(*a, **k):
    if a and isinstance(a[0], (dict,)) and not getattr(type(a[0]), "_sx_lazy", False):
        d = dict(a[0])
    elif a:
        it = a[0]
        d = mkdict([(kk, it[kk]) for kk in it.keys()] if hasattr(it, "keys") else list(it))
    else:
        d = {}
    for kk, v in k.items():
        sx_setitem(v, d, kk)
    return d


@model(set)
def sx_set(*a):
    return mkset(a[0]) if a else set()


@model(frozenset)
def sx_frozenset(*a):
    return frozenset(mkset(a[0])) if a else frozenset()


@model(list)
def sx_list(*a):
    return list(*a)


@model(tuple)
def sx_tuple(*a):
    return tuple(*a)


@model(getattr)
def sx_getattr(o, name, *default):
    for h in GETATTR_HOOK:
        r = h(o, name, default)
        if r is not None:
            return r[1]
    return getattr(o, realize(name), *default)


@model(hasattr)
def sx_hasattr(o, name):
    try:
        sx_getattr(o, name)
    except AttributeError:
        return False
    return True


@model(setattr)
def sx_setattr(o, name, v):
    setattr(o, realize(name), v)


@model(sorted)
def sx_sorted(it, **k):
    return sorted(it, **k)


@model(min)
def sx_min(*a, **k):
    return min(*a, **k)


@model(max)
def sx_max(*a, **k):
    return max(*a, **k)


@model(sum)
def sx_sum(*a, **k):
    return sum(*a, **k)


@model(any)
def sx_any(it):
    return any(it)


@model(all)
def sx_all(it):
    return all(it)


MODELS[repr] = lambda v: sx_repr(v)
for _f in (enumerate, zip, iter, next, reversed, map, filter, id, print, callable,
           issubclass, slice, hash, property, staticmethod, classmethod, abs):
    MODELS[_f] = _f


@model(range)
def sx_range(*a):
    return range(*[realize(x) for x in a])


import copy as _copy  # noqa: E402
import typing as _typing  # noqa: E402

MODELS[_typing.cast] = lambda t, v: v


@model(_copy.deepcopy)
def sx_deepcopy(x, memo=None):
    if not has_sym(x, 6):
        return _copy.deepcopy(x) if memo is None else _copy.deepcopy(x, memo)
    t = type(x)
    if t in SYM_TYPES:
        return x
    if t is list:
        return [sx_deepcopy(v) for v in x]
    if t is tuple:
        return tuple(sx_deepcopy(v) for v in x)
    if t is dict:
        return {k: sx_deepcopy(v) for k, v in x.items()}
    if t in (set, frozenset):
        return t(x)
    return _copy.deepcopy(deep_realize(x))


@model(_copy.copy)
def sx_copy(x):
    if type(x) in SYM_TYPES:
        return x
    return _copy.copy(x)


def _wcswidth(text, n=None, *a, **k):
    """wcwidth.wcswidth of a symbolic string: forks on the width of each character only."""
    import wcwidth
    if type(text) is not SymStr or n is not None:
        return wcwidth.wcswidth(realize(text), *([n] if n is not None else []), *a, **k)
    tot = 0
    for c in chars(text):
        if type(c) is str:
            w = wcwidth.wcwidth(c)
        else:
            ws = {}
            for d in map(chr, c.dom):
                ws.setdefault(wcwidth.wcwidth(d), []).append(d)
            w = None
            items = list(ws.items())
            for ww, ds in items[:-1]:
                s = SymStr((c,))
                if sym_or(*[s == d for d in ds]):
                    w = ww
                    break
            if w is None:
                w = items[-1][0]
        if w < 0:
            return -1
        tot += w
    return tot


try:
    import wcwidth as _wc
    MODELS[_wc.wcswidth] = _wcswidth
except ImportError:
    pass


def _json_payload(x):
    """JSON semantics of a nested value, keeping symbolic leaves."""
    from .jsonm import to_json
    return to_json(x)


# -------------------------------------------------------------- bound methods
def _m_join(self, it):
    return join(self, it)


STR_LIFT = {"startswith", "endswith", "replace", "split", "rsplit", "partition", "rpartition",
            "find", "rfind", "index", "rindex", "count", "strip", "lstrip", "rstrip",
            "removeprefix", "removesuffix"}


def str_method(self, name, args, kw):
    if name == "join":
        return join(self, *args)
    if name == "format":
        return self.format(*[realize(a) for a in args], **{k: realize(v) for k, v in kw.items()})
    if any(type(a) is SymStr or (type(a) is tuple and any(type(b) is SymStr for b in a))
           for a in args) and name in STR_LIFT:
        return getattr(SymStr(tuple(self)), name)(*args, **kw)
    if any(type(a) is SymEnum for a in args) and name in STR_LIFT:
        m = getattr(str, name)
        return lift(lambda *v: m(self, *v), *args)
    return getattr(self, name)(*[deep_realize(a) for a in args],
                               **{k: realize(v) for k, v in kw.items()})


def dict_method(self, name, f, args, kw):
    if name in ("get", "pop", "setdefault") and args:
        k = args[0]
        if _hashsym(k) or _anysym(self):
            ok, e = dict_find(self, k)
            if name == "get":
                return self[e] if ok else (args[1] if len(args) > 1 else None)
            if name == "pop":
                if ok:
                    return dict.pop(self, e)
                if len(args) > 1:
                    return args[1]
                raise KeyError(k)
            if ok:
                return self[e]
            v = args[1] if len(args) > 1 else None
            sx_setitem(v, self, k)
            return v
        return f(*args, **kw)
    if name == "update":
        for a in args:
            items = [(k, a[k]) for k in a.keys()] if hasattr(a, "keys") else list(a)
            for k, v in items:
                sx_setitem(v, self, k)
        for k, v in kw.items():
            sx_setitem(v, self, k)
        return None
    if name == "__contains__":
        return sx_contains(self, args[0])
    if name == "__getitem__":
        return sx_getitem(self, args[0])
    if name == "__setitem__":
        return sx_setitem(args[1], self, args[0])
    if name == "__delitem__":
        return sx_delitem(self, args[0])
    return f(*args, **kw)


def set_method(self, name, f, args, kw):
    syms = _anysym(self) or any(
        _hashsym(a) or (isinstance(a, (set, frozenset, list, tuple, dict)) and
                        any(_hashsym(e) for e in a)) for a in args)
    if name == "update":
        for a in args:
            for x in list(a):
                set_add(self, x)
        return None
    if not syms:
        return f(*args, **kw)
    if name == "add":
        return set_add(self, args[0])
    if name in ("union", "__or__"):
        return mkset([*self, *[x for a in args for x in a]])
    if name in ("difference", "__sub__"):
        return mkset([x for x in self if not any(bool(sx_contains(a, x)) for a in args)])
    if name in ("intersection", "__and__"):
        return mkset([x for x in self if all(bool(sx_contains(a, x)) for a in args)])
    if name in ("issubset",):
        return sym_and(*[sx_contains(args[0], x) for x in self])
    if name in ("issuperset",):
        return sym_and(*[sx_contains(self, x) for x in args[0]])
    if name in ("discard", "remove"):
        for e in list(self):
            if bool(sx_eq(e, args[0])):
                return set.discard(self, e)
        if name == "remove":
            raise KeyError(args[0])
        return None
    return f(*args, **kw)


INSTR_PREFIX = ("skops",)


def is_instrumented(f):
    g = getattr(f, "__globals__", None)
    if g is not None and "_sx_instrumented" in g:
        return True
    w = getattr(f, "__wrapped__", None)
    if w is not None and w is not f:
        return is_instrumented(w)
    return False


_CLS_CACHE: dict = {}


def cls_instrumented(c):
    r = _CLS_CACHE.get(c)
    if r is None:
        import sys
        m = sys.modules.get(getattr(c, "__module__", None))
        r = bool(m is not None and "_sx_instrumented" in getattr(m, "__dict__", {})) or \
            getattr(c, "_sx_direct", False)
        _CLS_CACHE[c] = r
    return r


BuiltinMethod = type([].append)
MethodWrapper = type("".__len__)


CALL_WATCH: dict = {}     # id(callable) -> hook(f)


def sx_call(f, /, *args, **kw):
    if CALL_WATCH:
        h = CALL_WATCH.get(id(f))
        if h is not None:
            h(f)
    try:
        m = MODELS.get(f)
    except TypeError:
        m = None
    if m is not None:
        return m(*args, **kw)
    tf = type(f)
    if tf is types.FunctionType:
        if is_instrumented(f) or getattr(f, "_sx_direct", False):
            return f(*args, **kw)
        if hasattr(f, "registry") and hasattr(f, "dispatch") and args:
            impl = f.dispatch(args[0].__class__)
            return sx_call(impl, *args, **kw)
    elif tf is types.MethodType:
        s = f.__self__
        ts = type(s)
        if ts in SYM_TYPES or is_instrumented(f.__func__) or getattr(ts, "_sx_direct", False) \
                or getattr(ts, "_sx_lazy", False) or getattr(f.__func__, "_sx_direct", False):
            return f(*args, **kw)
        m = MODELS.get(f.__func__)
        if m is not None:
            return m(s, *args, **kw)
    elif isinstance(f, type):
        if cls_instrumented(f):
            return f(*args, **kw)
        if issubclass(f, BaseException):
            return f(*args, **kw)
    elif tf is BuiltinMethod or tf is MethodWrapper:
        s = getattr(f, "__self__", None)
        name = f.__name__
        if getattr(type(s), "_sx_direct", False):
            return f(*args, **kw)
        if isinstance(s, str):
            return str_method(s, name, args, kw)
        if isinstance(s, dict):
            return dict_method(s, name, f, args, kw)
        if isinstance(s, (set, frozenset)):
            return set_method(s, name, f, args, kw)
        if isinstance(s, (list, tuple)):
            if name in ("pop", "insert", "__getitem__"):
                return f(*[realize(args[0])], *args[1:]) if args else f()
            return f(*args, **kw)
        if isinstance(s, BaseException) and name == "__init__":
            return f(*args, **kw)
        if isinstance(s, type) and name == "__new__":
            return f(*args, **kw)
        if name == "__setstate__" and type(s) is functools.partial:
            return f(*args, **kw)
    elif getattr(tf, "_sx_direct", False):
        return f(*args, **kw)
    elif is_instrumented(getattr(tf, "__call__", None)):
        return f(*args, **kw)
    elif hasattr(f, "registry") and hasattr(f, "dispatch") and args:
        return sx_call(f.dispatch(args[0].__class__), *args, **kw)
    elif tf is functools.partial and not has_sym(args) and not has_sym(list(kw.values())):
        return f(*args, **kw)
    for h in EXTERNAL_HOOK:
        r = h(f, args, kw)
        if r is not None:
            return r[1]
    if has_sym(args) or (kw and has_sym(list(kw.values()))):
        e = Engine.CUR
        if e is not None and e.in_run:
            e.note("realized at " + getattr(f, "__module__", "?").__str__() + "." +
                   str(getattr(f, "__qualname__", type(f).__name__)))
        args = tuple(deep_realize(a) for a in args)
        kw = {k: deep_realize(v) for k, v in kw.items()}
    return f(*args, **kw)


def sx_enter(q):
    e = Engine.CUR
    if e is not None and e.in_run:
        e.funcs.add(q)
        e.steps += 1
        if e.steps > e.max_steps:
            step()


STMT_HOOK: list = []


def sx_stmt():
    for h in STMT_HOOK:
        h()


INJECT = {
    "_sx_call": sx_call, "_sx_in": sx_in, "_sx_notin": sx_notin, "_sx_is": sx_is,
    "_sx_isnot": sx_isnot, "_sx_getitem": sx_getitem, "_sx_setitem": sx_setitem,
    "_sx_delitem": sx_delitem, "_sx_fstr": sx_fstr, "_sx_mod": sx_mod, "_sx_bit": sx_bit, "_sx_ibit": sx_ibit, "_sx_mkdict": mkdict,
    "_sx_mkset": mkset, "_sx_enter": sx_enter, "_sx_step": step, "_sx_stmt": sx_stmt,
    "_sx_STAR": STAR, "_sx_Control": Control,
}


# ---------------------------------------------------------------------- regex
from .rex import re_sub, re_search, re_match, re_fullmatch, re_findall, re_split  # noqa: E402

MODELS[re.sub] = re_sub
MODELS[re.search] = re_search
MODELS[re.match] = re_match
MODELS[re.fullmatch] = re_fullmatch
MODELS[re.findall] = re_findall
MODELS[re.split] = re_split
from .rex import pattern_method  # noqa: E402

EXTERNAL_HOOK.append(pattern_method)
