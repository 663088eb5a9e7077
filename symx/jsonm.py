"""json.dumps / json.loads on values with symbolic leaves.

A JSON text with symbolic content is represented by its payload (the value after the
JSON data model was applied).  Everything else falls through to the real json module."""
from __future__ import annotations

import builtins
import json
import math

from . import rt
from .core import Engine, EngineError
from .values import (SYM_TYPES, SymBool, SymEnum, SymFloat, SymInt, SymStr, deep_conc,
                     deep_realize, is_sym, lift, realize)

_TAG = object()


class Pairs:
    """A JSON object as written: keys may repeat."""
    __slots__ = ("items",)

    def __init__(self, items):
        self.items = items


def _key(k):
    t = type(k)
    if t in (SymStr, SymEnum):
        return k
    if t is SymBool:
        return "true" if k else "false"
    if t in SYM_TYPES:
        k = realize(k)
    if isinstance(k, str):
        return str(k)
    if k is True:
        return "true"
    if k is False:
        return "false"
    if k is None:
        return "null"
    if isinstance(k, int):
        return int.__repr__(k)
    if isinstance(k, float):
        if k != k:
            return "NaN"
        if k in (math.inf, -math.inf):
            return "Infinity" if k > 0 else "-Infinity"
        return float.__repr__(k)
    raise TypeError(f"keys must be str, int, float, bool or None, not {k.__class__.__name__}")


def to_json(x, default=None, seen=(), sort_keys=False, skipkeys=False):
    """The value as JSON would represent it (objects become Pairs)."""
    t = type(x)
    if t in SYM_TYPES or t is SymJsonText:
        return x
    if x is None or t in (str, int, float, bool):
        return x
    if isinstance(x, str):
        return str.__str__(x)
    if isinstance(x, int):
        return int(x)
    if isinstance(x, float):
        return float(x)
    if id(x) in seen:
        raise ValueError("Circular reference detected")
    if isinstance(x, (list, tuple)):
        return [to_json(v, default, seen + (id(x),), sort_keys, skipkeys) for v in x]
    if isinstance(x, dict):
        items = []
        src = x.items()
        if sort_keys:
            src = sorted(src)
        for k, v in src:
            try:
                kk = _key(k)
            except TypeError:
                if skipkeys:
                    continue
                raise
            items.append((kk, to_json(v, default, seen + (id(x),), sort_keys, skipkeys)))
        return Pairs(items)
    if getattr(t, "_sx_lazy", False):
        raise EngineError("json.dumps of a lazy object")
    if default is not None:
        return to_json(rt.sx_call(default, x), default, seen + (id(x),), sort_keys, skipkeys)
    raise TypeError(f"Object of type {x.__class__.__name__} is not JSON serializable")


def from_json(p):
    """json.loads of a payload: fresh containers, the last of repeated keys wins."""
    if type(p) is Pairs:
        d: dict = {}
        for k, v in p.items:
            rt.sx_setitem(from_json(v), d, k)
        return d
    if type(p) is list:
        return [from_json(v) for v in p]
    return p


def has_symbolic(p):
    if type(p) is Pairs:
        return any(type(k) in SYM_TYPES or has_symbolic(v) for k, v in p.items)
    if type(p) is list:
        return any(has_symbolic(v) for v in p)
    return type(p) in SYM_TYPES or type(p) is SymJsonText


def plain(p):
    """payload -> concrete python value under the current witness (no forks)"""
    if type(p) is Pairs:
        return {deep_conc(k): plain(v) for k, v in p.items}
    if type(p) is list:
        return [plain(v) for v in p]
    return p.conc() if type(p) is SymJsonText else deep_conc(p)


class SymJsonText:
    """str stand-in: a JSON text whose payload has symbolic leaves."""

    _sx_direct = True
    _sx_faketype = True
    _base = str

    def __init__(self, payload):
        self.payload = payload

    @property
    def __class__(self):
        return self._base

    def __repr__(self):
        return f"<json {plain(self.payload)!r}>"

    def __eq__(self, o):
        if o is self:
            return True
        if not isinstance(o, SymJsonText):
            return False
        return payload_eq(self.payload, o.payload)

    def __ne__(self, o):
        return rt.sym_not(self == o)

    __hash__ = None

    def encode(self, *a, **k):
        return SymJsonBytes(self.payload)

    def conc(self):
        """real text for the current witness (no forks)"""
        return json.dumps(_unpairs(self.payload))

    def __getattr__(self, n):
        raise EngineError(f"symbolic JSON text: .{n}")


def _unpairs(p):
    if type(p) is Pairs:
        return {deep_conc(k): _unpairs(v) for k, v in p.items}
    if type(p) is list:
        return [_unpairs(v) for v in p]
    return p.conc() if type(p) is SymJsonText else deep_conc(p)


class SymJsonBytes(SymJsonText):
    _base = bytes

    def decode(self, *a, **k):
        return SymJsonText(self.payload)


def payload_eq(a, b):
    if type(a) is Pairs and type(b) is Pairs:
        if len(a.items) != len(b.items):
            return False
        return rt.sym_and(*[rt.sym_and(rt.sx_eq(x[0], y[0]), payload_eq(x[1], y[1]))
                            for x, y in zip(a.items, b.items)])
    if type(a) is list and type(b) is list:
        if len(a) != len(b):
            return False
        return rt.sym_and(*[payload_eq(x, y) for x, y in zip(a, b)])
    if type(a) in (Pairs, list) or type(b) in (Pairs, list):
        return False
    if (a is None) != (b is None):
        return False
    return rt.sx_eq(a, b)


def _dumps(obj, *a, skipkeys=False, cls=None, default=None, sort_keys=False, **k):
    e = Engine.CUR
    if e is None or not e.in_run or cls is not None or a:
        return json.dumps(deep_realize(obj), *a, skipkeys=skipkeys, cls=cls, default=default,
                          sort_keys=sort_keys, **k)
    p = to_json(obj, default, (), sort_keys, skipkeys)
    if has_symbolic(p):
        return SymJsonText(p)
    return json.dumps(obj, skipkeys=skipkeys, default=_wrap(default), sort_keys=sort_keys, **k)


def _wrap(f):
    return f if f is None else (lambda o: rt.sx_call(f, o))


LOADS_HOOK: list = []


def _loads(s, *a, **k):
    for h in LOADS_HOOK:
        r = h(s)
        if r is not None:
            return r[1]
    if isinstance(s, SymJsonText):
        if a or k:
            raise EngineError("json.loads options on symbolic text")
        return from_json(s.payload)
    t = type(s)
    if t in (SymStr, SymEnum):
        s = realize(s)
    return json.loads(s, *a, **k)


def install():
    rt.MODELS[json.dumps] = _dumps
    rt.MODELS[json.loads] = _loads


def text(value):
    """JSON text of a value for a harness (symbolic leaves kept)."""
    return _dumps(value)


text._sx_direct = True


# ---------------------------------------------------------------------- archives
_SCHEMAS: dict = {}
_MARK = b'{"__sx_schema__": '


def register(payload) -> bytes:
    """Real bytes that stand for a JSON text with symbolic leaves."""
    n = len(_SCHEMAS)
    _SCHEMAS[n] = payload
    return _MARK + str(n).encode() + b"}"


def reset_schemas():
    _SCHEMAS.clear()


def lookup(s):
    if isinstance(s, str) and type(s) is str:
        s = s.encode("utf-8", "replace")
    if isinstance(s, (bytes, bytearray, memoryview)):
        b = bytes(s)
        if b.startswith(_MARK):
            return _SCHEMAS[int(b[len(_MARK):-1])]
    return None


def _hook(s):
    if type(s) in (bytes, str, bytearray):
        p = lookup(s)
        if p is not None:
            return (True, from_json(p))
    return None


def _load(fp, **k):
    return _loads(fp.read(), **k)


def _writestr(self, name, data, *a, **k):
    if isinstance(data, SymJsonText):
        data = register(data.payload)
    return self.writestr(deep_realize(name), deep_realize(data), *a, **k)


def install_zip():
    import zipfile
    if _hook not in LOADS_HOOK:
        LOADS_HOOK.append(_hook)
    rt.MODELS[json.load] = _load
    rt.MODELS[zipfile.ZipFile.writestr] = _writestr


def archive(schema, members):
    """bytes of a real zip archive whose schema.json may have symbolic leaves"""
    import io
    import zipfile
    buf = io.BytesIO()
    with zipfile.ZipFile(buf, "w") as z:
        for n, d in members.items():
            z.writestr(n, d)
        p = to_json(schema)
        z.writestr("schema.json", register(p) if has_symbolic(p) else json.dumps(schema))
    return buf.getvalue()


archive._sx_direct = True
reset_schemas._sx_direct = True
