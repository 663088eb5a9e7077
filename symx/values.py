"""Concolic values.  Each symbolic value subclasses the real type, carries the
concrete witness of the current run and an SMT term; operations compute both.
Anything not modelled *fork-realizes* (forks over the value, complete on finite
domains)."""
from __future__ import annotations

import itertools

from .core import HASHED, Engine, EngineError, z3


def cur():
    return Engine.CUR


# --------------------------------------------------------------------- SymBool
class SymBool(int):


    def __new__(cls, z, c):
        self = int.__new__(cls, 1 if c else 0)
        self._z = z
        return self

    @property
    def __class__(self):
        return bool

    @property
    def _c(self):
        return int.__eq__(self, 1)

    def __bool__(self):
        return cur().branch(self._z, int.__eq__(self, 1))

    def _r(self):
        return bool(self)

    def __eq__(self, o):
        if isinstance(o, SymBool):
            return mkbool(self._z == o._z, self._c == o._c)
        if isinstance(o, bool):
            return self if o else mkbool(z3.Not(self._z), not self._c)
        return bool(self) == o

    def __ne__(self, o):
        r = self.__eq__(o)
        return sym_not(r)

    def __hash__(self):
        HASHED[0] = True
        return hash(bool(self))

    def __and__(self, o):
        if type(o) is SymBool or type(o) is bool:
            return sym_and(self, o)
        return int(self) & o

    __rand__ = __and__

    def __or__(self, o):
        if type(o) is SymBool or type(o) is bool:
            return sym_or(self, o)
        return int(self) | o

    __ror__ = __or__

    def __repr__(self):
        return repr(bool(self))

    __str__ = __repr__

    def __int__(self):
        return int(bool(self))

    def __index__(self):
        return int(bool(self))

    def __format__(self, spec):
        return format(bool(self), spec)

    def __reduce_ex__(self, p):
        return (bool, (bool(self),))

    def __add__(self, o):
        return int(bool(self)) + o

    __radd__ = __add__

    def __mul__(self, o):
        return int(bool(self)) * o

    __rmul__ = __mul__

    def __sub__(self, o):
        return int(bool(self)) - o

    def __lt__(self, o):
        return int(bool(self)) < o

    def __gt__(self, o):
        return int(bool(self)) > o

    def __le__(self, o):
        return int(bool(self)) <= o

    def __ge__(self, o):
        return int(bool(self)) >= o


def mkbool(z, c):
    if isinstance(z, bool):
        return z
    if z3.is_true(z):
        return True
    if z3.is_false(z):
        return False
    return SymBool(z, c)


def _zc(b):
    if type(b) is SymBool:
        return b._z, b._c
    return z3.BoolVal(bool(b)), bool(b)


def sym_not(b):
    if type(b) is SymBool:
        return mkbool(z3.Not(b._z), not b._c)
    return not b


def sym_and(*bs):
    zs, c = [], True
    for b in bs:
        if type(b) is SymBool:
            zs.append(b._z)
            c = c and b._c
        elif not b:
            return False
    if not zs:
        return True
    return mkbool(zs[0] if len(zs) == 1 else z3.And(*zs), c)


def sym_or(*bs):
    zs, c = [], False
    for b in bs:
        if type(b) is SymBool:
            zs.append(b._z)
            c = c or b._c
        elif b:
            return True
    if not zs:
        return False
    return mkbool(zs[0] if len(zs) == 1 else z3.Or(*zs), c)


# ---------------------------------------------------------------------- SymInt
def _iz(x):
    if type(x) is SymInt:
        return x._z
    if type(x) is SymBool:
        return z3.If(x._z, z3.IntVal(1), z3.IntVal(0))
    return z3.IntVal(int(x))


def _isint(x):
    return isinstance(x, int)


class SymInt(int):


    def __new__(cls, z, c):
        self = int.__new__(cls, c)
        self._z = z
        return self

    @property
    def __class__(self):
        return int

    @property
    def _c(self):
        return int.__add__(self, 0)

    def _r(self):
        c = self._c
        cur().realize(self._z, c, lambda v: self._z == v)
        return c

    def __hash__(self):
        HASHED[0] = True
        return hash(self._r())

    def __bool__(self):
        return cur().branch(self._z != 0, self._c != 0)

    def __repr__(self):
        return repr(self._r())

    __str__ = __repr__

    def __format__(self, spec):
        return format(self._r(), spec)

    def __index__(self):
        return self._r()

    def __int__(self):
        return self._r()

    def __float__(self):
        return float(self._r())

    def __reduce_ex__(self, p):
        return (int, (self._r(),))

    def __neg__(self):
        return mkint(-self._z, -self._c)

    def __pos__(self):
        return self

    def __abs__(self):
        return -self if self < 0 else self


def mkint(z, c):
    if z3.is_int_value(z):
        return c
    return SymInt(z, c)


def _binop(name, zf, cf):
    def op(self, o):
        if _isint(o):
            oc = o._c if type(o) in (SymInt, SymBool) else int(o)
            return mkint(zf(self._z, _iz(o)), cf(self._c, oc))
        return getattr(self._r(), name)(o)

    def rop(self, o):
        if _isint(o):
            oc = o._c if type(o) in (SymInt, SymBool) else int(o)
            return mkint(zf(_iz(o), self._z), cf(oc, self._c))
        return getattr(self._r(), "__r" + name[2:])(o)

    setattr(SymInt, name, op)
    setattr(SymInt, "__r" + name[2:], rop)


_binop("__add__", lambda a, b: a + b, lambda a, b: a + b)
_binop("__sub__", lambda a, b: a - b, lambda a, b: a - b)
_binop("__mul__", lambda a, b: a * b, lambda a, b: a * b)


def _cmpop(name, zf, cf):
    def op(self, o):
        if _isint(o):
            oc = o._c if type(o) in (SymInt, SymBool) else int(o)
            return mkbool(zf(self._z, _iz(o)), cf(self._c, oc))
        if o is None or isinstance(o, (str, bytes, list, dict, tuple, set)):
            return NotImplemented
        return cf(self._r(), o)

    setattr(SymInt, name, op)


_cmpop("__eq__", lambda a, b: a == b, lambda a, b: a == b)
_cmpop("__ne__", lambda a, b: a != b, lambda a, b: a != b)
_cmpop("__lt__", lambda a, b: a < b, lambda a, b: a < b)
_cmpop("__le__", lambda a, b: a <= b, lambda a, b: a <= b)
_cmpop("__gt__", lambda a, b: a > b, lambda a, b: a > b)
_cmpop("__ge__", lambda a, b: a >= b, lambda a, b: a >= b)
for _n in ("__floordiv__", "__mod__", "__truediv__", "__pow__", "__lshift__", "__rshift__",
           "__and__", "__or__", "__xor__", "__divmod__"):
    def _mk(n):
        def op(self, o):
            return getattr(self._r(), n)(o._r() if is_sym(o) else o)

        def rop(self, o):
            return getattr(int, "__r" + n[2:])(self._r(), o)

        return op, rop

    _a, _b = _mk(_n)
    setattr(SymInt, _n, _a)
    setattr(SymInt, "__r" + _n[2:], _b)


# --------------------------------------------------------------------- SymEnum
_IDX: dict = {}


def idx_in(z, s):
    """z3 condition: integer term z is in the set s (as ranges)."""
    s = tuple(sorted(s))
    key = (z.get_id(), s)
    r = _IDX.get(key)
    if r is not None:
        return r[1]
    e = _idx_in(z, s)
    if len(_IDX) > 50000:
        _IDX.clear()
    _IDX[key] = (z, e)
    return e


def _idx_in(z, s):
    if not s:
        return z3.BoolVal(False)
    rs = []
    a = b = s[0]
    for v in s[1:]:
        if v == b + 1:
            b = v
        else:
            rs.append((a, b))
            a = b = v
    rs.append((a, b))
    cs = [z == a if a == b else z3.And(z >= a, z <= b) for a, b in rs]
    return cs[0] if len(cs) == 1 else z3.Or(*cs)


class SymEnum(str):
    """A string drawn from a finite table indexed by an integer SMT term."""

    __slots__ = ("_i", "_t", "_ci", "_free")

    def __new__(cls, i, table, ci, free=False):
        self = str.__new__(cls, table[ci])
        self._i, self._t, self._ci, self._free = i, table, ci, free
        return self

    @property
    def __class__(self):
        return str

    @property
    def _c(self):
        return self._t[self._ci]

    def _key(self):
        return self._i.get_id()

    def inset(self, pred):
        """SymBool: pred(value)."""
        s = [k for k, v in enumerate(self._t) if pred(v)]
        c = bool(pred(self._c))
        if len(s) == len(self._t):
            return True
        if not s:
            return False
        return mkbool(idx_in(self._i, s), c)

    def _r(self):
        c = self._c
        s = [k for k, v in enumerate(self._t) if v == c]

        def mk(v):
            return idx_in(self._i, [k for k, w in enumerate(self._t) if w == v])

        if len(s) == len(self._t):
            return c
        cur().realize((self._i.get_id(), self._t), c, mk)
        return c

    def __hash__(self):
        HASHED[0] = True
        if self._free:
            return int(self._free)
        return hash(self._r())

    def __eq__(self, o):
        return enum_eq(self, o)

    def __ne__(self, o):
        return sym_not(enum_eq(self, o))

    def __bool__(self):
        return bool(self.inset(bool))

    def __repr__(self):
        return repr(self._r())

    def __str__(self):
        return self

    def __add__(self, o):
        return lift(_add, self, o)

    def __radd__(self, o):
        return lift(_add, o, self)

    def __iter__(self):
        return iter(self._r())

    def __reduce_ex__(self, p):
        return (str, (self._r(),))

    def __format__(self, spec):
        if spec == "":
            return self
        return format(self._r(), spec)


def _add(a, b):
    return a + b


def is_sym(x):
    return type(x) in SYM_TYPES


def symval(x):
    """concrete witness (no fork)"""
    if type(x) in SYM_TYPES:
        return x._c
    return x


MAX_TABLE = 20000


_LIFT: dict = {}


def lift(fn, *args, key=None):
    """Apply a pure function pointwise over the SymEnum arguments."""
    syms, sk, slot = [], [], []
    for a in args:
        if type(a) is SymEnum:
            k = a._i.get_id()
            if k in sk:
                slot.append(sk.index(k))
            else:
                slot.append(len(syms))
                syms.append(a)
                sk.append(k)
        else:
            slot.append(None)
    size = 1
    for s in syms:
        size *= len(s._t)
    if len(syms) > 1 and size > MAX_TABLE:
        # realize all but the largest
        big = max(range(len(syms)), key=lambda j: len(syms[j]._t))
        return lift(fn, *[a._r() if type(a) is SymEnum and slot[n] != big else a
                          for n, a in enumerate(args)])
    args = [a if type(a) is SymEnum else realize(a) for a in args]
    if not syms:
        return fn(*args)
    if key is None and getattr(fn, "__closure__", 1) is None and not fn.__defaults__:
        key = fn.__code__
    ck = None
    if key is not None:
        try:
            ck = (key, tuple([(slot[n], a._t) if type(a) is SymEnum else (None, type(a), a)
                              for n, a in enumerate(args)]))
            res = _LIFT.get(ck)
        except TypeError:
            ck, res = None, None
    else:
        res = None
    if res is None:
        res = _lift_table(fn, args, syms, slot)
        if ck is not None:
            if len(_LIFT) > 20000:
                _LIFT.clear()
            _LIFT[ck] = res
    kind = res[0]
    if kind == "const":
        return res[1]
    i, ci = syms[0]._i, syms[0]._ci
    for s in syms[1:]:
        i = i * len(s._t) + s._i
        ci = ci * len(s._t) + s._ci
    if kind == "bool":
        if len(syms) > 1:
            i = z3.simplify(i)
        return mkbool(idx_in(i, res[1]), res[2][ci])
    if kind == "str":
        return SymEnum(i, res[1], ci)
    _, table, codes = res
    mine = codes[ci]
    if any(c != mine for c in codes):
        cur().realize(i, mine, lambda v: idx_in(i, [k for k, c in enumerate(codes) if c == v]))
    t = table[ci]
    if t[0] == 1:
        raise t[2]
    if type(t[1]) is list:
        return list(t[1])
    return t[1]


def _lift_table(fn, args, syms, slot):
    def at(ix):
        vals = [a._t[ix[slot[n]]] if slot[n] is not None else a for n, a in enumerate(args)]
        try:
            return (0, fn(*vals))
        except Exception as exc:  # realized below
            return (1, type(exc), exc)

    table = [at(ix) for ix in itertools.product(*[range(len(s._t)) for s in syms])]
    if all(t[0] == 0 for t in table):
        types = {type(t[1]) for t in table}
        if types == {bool}:
            s = tuple([k for k, t in enumerate(table) if t[1]])
            if len(s) == len(table):
                return ("const", True)
            if not s:
                return ("const", False)
            return ("bool", s, [t[1] for t in table])
        if types == {str}:
            tab = tuple(t[1] for t in table)
            if all(t == tab[0] for t in tab):
                return ("const", tab[0])
            return ("str", tab)

    # realize by groups of equal outcome
    def code(t):
        if t[0] == 1:
            return ("exc", t[1].__name__, str(t[2]))
        try:
            return ("val", type(t[1]).__name__, repr(t[1]))
        except Exception:
            return ("val", type(t[1]).__name__, id(t[1]))

    return ("mix", table, [code(t) for t in table])


_EQ_CACHE: dict = {}


def enum_eq(a, o):
    if type(o) is SymEnum:
        c = a._c == o._c
        if a._key() == o._key():
            if a._t is o._t or a._t == o._t:
                return True
            s = [k for k, (x, y) in enumerate(zip(a._t, o._t)) if x == y]
            if not s:
                return False
            if len(s) == len(a._t):
                return True
            return mkbool(idx_in(a._i, s), c)
        if a._t is o._t or a._t == o._t:
            if len(set(a._t)) == len(a._t):
                return mkbool(a._i == o._i, c)
        k = (a._key(), a._t, o._key(), o._t)
        z = _EQ_CACHE.get(k)
        if z is None:
            inv: dict = {}
            for n, v in enumerate(a._t):
                inv.setdefault(v, ([], []))[0].append(n)
            for n, v in enumerate(o._t):
                if v in inv:
                    inv[v][1].append(n)
            cs = [z3.And(idx_in(a._i, p), idx_in(o._i, q)) for p, q in inv.values() if q]
            z = z3.Or(*cs) if len(cs) > 1 else (cs[0] if cs else z3.BoolVal(False))
            _EQ_CACHE[k] = z
        return mkbool(z, c)
    if type(o) is SymStr:
        return a._r() == o
    if isinstance(o, str):
        k = (a._i.get_id(), a._t, o)
        z = _EQC.get(k)
        if z is None:
            s = [n for n, v in enumerate(a._t) if v == o]
            e = True if len(s) == len(a._t) else (idx_in(a._i, s) if s else False)
            if len(_EQC) > 50000:
                _EQC.clear()
            z = _EQC[k] = (e, a._i)
        if type(z[0]) is bool:
            return z[0]
        return mkbool(z[0], a._c == o)
    return NotImplemented


_EQC: dict = {}


def _lift_method(name):
    m = getattr(str, name)

    def f(self, *args, **kw):
        if kw:
            args2 = tuple(realize(a) for a in args)
            return lift(lambda s: m(s, *args2, **{k: realize(v) for k, v in kw.items()}), self)
        flat = []
        shapes = []
        for a in args:
            if isinstance(a, tuple):
                shapes.append(len(a))
                flat.extend(a)
            else:
                shapes.append(None)
                flat.append(a)

        def g(s, *vals):
            out, it = [], iter(vals)
            for sh in shapes:
                out.append(next(it) if sh is None else tuple(next(it) for _ in range(sh)))
            return m(s, *out)

        return lift(g, self, *flat, key=(name, tuple(shapes)))

    f.__name__ = name
    setattr(SymEnum, name, f)


for _n in ("startswith", "endswith", "replace", "strip", "lstrip", "rstrip", "lower", "upper",
           "split", "rsplit", "partition", "rpartition", "isidentifier", "isdigit", "isalpha",
           "isalnum", "isspace", "islower", "isupper", "isnumeric", "isdecimal", "isascii",
           "istitle", "isprintable", "find", "rfind", "index",
           "rindex", "count", "title", "capitalize", "casefold", "swapcase", "zfill", "center",
           "ljust", "rjust", "removeprefix", "removesuffix", "encode", "splitlines",
           "__contains__", "__getitem__", "__len__", "__mul__", "__rmul__", "__mod__", "__lt__",
           "__le__", "__gt__", "__ge__", "expandtabs", "translate"):
    _lift_method(_n)

_SORTED: dict = {}


def _is_sorted(t):
    r = _SORTED.get(t)
    if r is None:
        r = _SORTED[t] = all(a < b for a, b in zip(t, t[1:]))
    return r


def _enum_cmp(name, zf):
    slow = getattr(SymEnum, name)

    def op(self, o):
        if type(o) is SymEnum and self._t == o._t and _is_sorted(self._t):
            if self._key() == o._key():
                return getattr(str, name)("a", "a")
            return mkbool(zf(self._i, o._i), getattr(str, name)(self._c, o._c))
        if not isinstance(o, str):
            return NotImplemented
        return slow(self, o)

    setattr(SymEnum, name, op)


_enum_cmp("__lt__", lambda a, b: a < b)
_enum_cmp("__le__", lambda a, b: a <= b)
_enum_cmp("__gt__", lambda a, b: a > b)
_enum_cmp("__ge__", lambda a, b: a >= b)


# ---------------------------------------------------------------------- SymStr
class Ch:
    """A symbolic character over a finite alphabet (tuple of code points)."""

    __slots__ = ("z", "dom", "c")

    def __init__(self, z, dom, c):
        self.z, self.dom, self.c = z, dom, c

    def pred(self, p):
        s = [k for k in self.dom if p(chr(k))]
        if len(s) == len(self.dom):
            return True
        if not s:
            return False
        return mkbool(idx_in(self.z, s), bool(p(chr(self.c))))

    def real(self):
        cur().realize(self.z, self.c, lambda v: self.z == v)
        return chr(self.c)


def ch_eq(a, b):
    if type(a) is Ch:
        if type(b) is Ch:
            if a.z.eq(b.z):
                return True
            if not set(a.dom) & set(b.dom):
                return False
            return mkbool(a.z == b.z, a.c == b.c)
        o = ord(b)
        if o not in a.dom:
            return False
        if len(a.dom) == 1:
            return True
        return mkbool(a.z == o, a.c == o)
    if type(b) is Ch:
        return ch_eq(b, a)
    return a == b


def ch_pred(a, p):
    return a.pred(p) if type(a) is Ch else bool(p(a))


def ch_conc(a):
    return chr(a.c) if type(a) is Ch else a


class SymStr(str):
    __slots__ = ("_ch", "_free")

    def __new__(cls, chs, free=False):
        chs = tuple(chs)
        self = str.__new__(cls, "".join(ch_conc(c) for c in chs))
        self._ch = chs
        self._free = free
        return self

    @property
    def __class__(self):
        return str

    @property
    def _c(self):
        return "".join(ch_conc(c) for c in self._ch)

    def _r(self):
        return "".join(c.real() if type(c) is Ch else c for c in self._ch)

    def __hash__(self):
        HASHED[0] = True
        if self._free:
            return int(self._free)
        return hash(self._r())

    def __eq__(self, o):
        return str_eq(self, o)

    def __ne__(self, o):
        r = str_eq(self, o)
        return r if r is NotImplemented else sym_not(r)

    def __bool__(self):
        return len(self._ch) > 0

    def __len__(self):
        return len(self._ch)

    def __iter__(self):
        for c in self._ch:
            yield mkstr((c,))

    def __getitem__(self, k):
        if isinstance(k, slice):
            k = slice(*[realize(x) for x in (k.start, k.stop, k.step)])
            return mkstr(self._ch[k])
        return mkstr((self._ch[realize(k)],))

    def __add__(self, o):
        if not isinstance(o, str):
            return NotImplemented
        return mkstr(self._ch + chars(o))

    def __radd__(self, o):
        if not isinstance(o, str):
            return NotImplemented
        return mkstr(chars(o) + self._ch)

    def __mul__(self, n):
        return mkstr(self._ch * realize(n))

    __rmul__ = __mul__

    def __str__(self):
        return self

    def __repr__(self):
        return repr(self._r())

    def __format__(self, spec):
        if spec == "":
            return self
        return format(self._r(), spec)

    def __reduce_ex__(self, p):
        return (str, (self._r(),))

    def __contains__(self, sub):
        r = self._contains(sub)
        return bool(r)

    def _contains(self, sub):
        s = chars(sub)
        n = len(s)
        if n == 0:
            return True
        return sym_or(*[match_at(self._ch, i, s) for i in range(len(self._ch) - n + 1)])

    def __lt__(self, o):
        return str_lt(self, o, False)

    def __le__(self, o):
        return str_lt(self, o, True)

    def __gt__(self, o):
        return not str_lt(self, o, True)

    def __ge__(self, o):
        return not str_lt(self, o, False)

    def __mod__(self, args):
        if isinstance(args, tuple):
            return self._r() % tuple(realize(a) for a in args)
        return self._r() % realize(args)

    # ---- methods
    def startswith(self, p, *rng):
        if rng:
            return self._r().startswith(realize(p), *map(realize, rng))
        if isinstance(p, tuple):
            return sym_or(*[match_at(self._ch, 0, chars(q)) for q in p])
        return match_at(self._ch, 0, chars(p))

    def endswith(self, p, *rng):
        if rng:
            return self._r().endswith(realize(p), *map(realize, rng))
        if isinstance(p, tuple):
            return sym_or(*[match_at(self._ch, len(self._ch) - len(q), chars(q)) for q in p])
        return match_at(self._ch, len(self._ch) - len(p), chars(p))

    def find(self, sub, start=0, end=None):
        s = chars(sub)
        start, end, _ = slice(realize(start), realize(end)).indices(len(self._ch))
        for i in range(start, end - len(s) + 1):
            if match_at(self._ch, i, s):
                return i
        return -1

    def rfind(self, sub, start=0, end=None):
        s = chars(sub)
        start, end, _ = slice(realize(start), realize(end)).indices(len(self._ch))
        for i in range(end - len(s), start - 1, -1):
            if match_at(self._ch, i, s):
                return i
        return -1

    def index(self, sub, *a):
        r = self.find(sub, *a)
        if r < 0:
            raise ValueError("substring not found")
        return r

    def rindex(self, sub, *a):
        r = self.rfind(sub, *a)
        if r < 0:
            raise ValueError("substring not found")
        return r

    def count(self, sub, *rng):
        if rng or not sub:
            return self._r().count(realize(sub), *map(realize, rng))
        return len(self.split(sub)) - 1

    def split(self, sep=None, maxsplit=-1):
        maxsplit = realize(maxsplit)
        out = []
        ch = self._ch
        n = len(ch)
        if sep is None:
            i = 0
            while True:
                while i < n and ch_pred(ch[i], str.isspace):
                    i += 1
                if i >= n:
                    return out
                if maxsplit >= 0 and len(out) == maxsplit:
                    j = n
                    while j > i and ch_pred(ch[j - 1], str.isspace):
                        j -= 1
                    # str.split(None, k) keeps trailing whitespace of the rest
                    out.append(mkstr(ch[i:]))
                    return out
                j = i
                while j < n and not ch_pred(ch[j], str.isspace):
                    j += 1
                out.append(mkstr(ch[i:j]))
                i = j
        s = chars(sep)
        if not s:
            raise ValueError("empty separator")
        i = st = 0
        while i <= n - len(s):
            if maxsplit >= 0 and len(out) >= maxsplit:
                break
            if match_at(ch, i, s):
                out.append(mkstr(ch[st:i]))
                i += len(s)
                st = i
            else:
                i += 1
        out.append(mkstr(ch[st:]))
        return out

    def rsplit(self, sep=None, maxsplit=-1):
        if maxsplit == -1:
            return self.split(sep)
        if sep is None:
            return self._r().rsplit(None, realize(maxsplit))
        out = []
        s, ch = chars(sep), self._ch
        i = en = len(ch)
        while i >= len(s) and len(out) < maxsplit:
            if match_at(ch, i - len(s), s):
                out.append(mkstr(ch[i:en]))
                i -= len(s)
                en = i
            else:
                i -= 1
        out.append(mkstr(ch[:en]))
        return out[::-1]

    def partition(self, sep):
        i = self.find(sep)
        if i < 0:
            return (self, "", "")
        return (mkstr(self._ch[:i]), sep, mkstr(self._ch[i + len(sep):]))

    def rpartition(self, sep):
        i = self.rfind(sep)
        if i < 0:
            return ("", "", self)
        return (mkstr(self._ch[:i]), sep, mkstr(self._ch[i + len(sep):]))

    def splitlines(self, keepends=False):
        out, ch = [], self._ch
        n, st, i = len(ch), 0, 0
        while i < n:
            if ch_pred(ch[i], lambda c: len(("a" + c + "b").splitlines()) == 2):
                e = i + 1
                if e < n and ch_eq(ch[i], "\r") and ch_eq(ch[e], "\n"):
                    e += 1
                out.append(mkstr(ch[st:e] if keepends else ch[st:i]))
                st = i = e
            else:
                i += 1
        if st < n:
            out.append(mkstr(ch[st:]))
        return out

    def _strip(self, cs, left, right):
        if cs is None:
            p = str.isspace
        else:
            cs = realize(cs)
            p = lambda c: c in cs  # noqa
        ch = self._ch
        i, j = 0, len(ch)
        if left:
            while i < j and ch_pred(ch[i], p):
                i += 1
        if right:
            while j > i and ch_pred(ch[j - 1], p):
                j -= 1
        return mkstr(ch[i:j])

    def strip(self, cs=None):
        return self._strip(cs, True, True)

    def lstrip(self, cs=None):
        return self._strip(cs, True, False)

    def rstrip(self, cs=None):
        return self._strip(cs, False, True)

    def replace(self, old, new, count=-1):
        count = realize(count)
        s, nw = chars(old), chars(new)
        if not s:
            return self._r().replace(realize(old), realize(new), count)
        out, i, k, ch = [], 0, 0, self._ch
        while i < len(ch):
            if (count < 0 or k < count) and match_at(ch, i, s):
                out.extend(nw)
                i += len(s)
                k += 1
            else:
                out.append(ch[i])
                i += 1
        return mkstr(out)

    def removeprefix(self, p):
        return mkstr(self._ch[len(p):]) if self.startswith(p) else self

    def removesuffix(self, p):
        return mkstr(self._ch[:len(self._ch) - len(p)]) if p and self.endswith(p) else self

    def join(self, it):
        return join(self, it)

    def _all(self, p):
        if not self._ch:
            return p("")
        return sym_and(*[ch_pred(c, p) for c in self._ch])

    def isspace(self):
        return self._all(str.isspace)

    def isdigit(self):
        return self._all(str.isdigit)

    def isalpha(self):
        return self._all(str.isalpha)

    def isalnum(self):
        return self._all(str.isalnum)

    def isprintable(self):
        return sym_and(*[ch_pred(c, str.isprintable) for c in self._ch])

    def isascii(self):
        return sym_and(*[ch_pred(c, str.isascii) for c in self._ch])


def ch_map(a, f):
    """Characters that f (str -> str) maps this character to."""
    if type(a) is not Ch:
        return tuple(f(a))
    img = [(k, f(chr(k))) for k in a.dom]
    if any(len(t) != 1 for _, t in img):
        odd = {k for k, t in img if len(t) != 1}
        if a.pred(lambda c: ord(c) in odd):
            return tuple(f(a.real()))
        img = [(k, t) for k, t in img if k not in odd]
    by = {}
    for k, t in img:
        by.setdefault(ord(t) - k, []).append(k)
    if list(by) == [0]:
        return (a,)
    z = a.z
    for d, ks in by.items():
        if d:
            z = z3.If(idx_in(a.z, ks), a.z + d, z)
    return (Ch(z, tuple(sorted({ord(t) for _, t in img})), ord(f(chr(a.c)))),)


def _mapper(name):
    g = getattr(str, name)

    def f(self):
        return mkstr([c for a in self._ch for c in ch_map(a, g)])
    f.__name__ = name
    return f


for _n in ("lower", "upper", "casefold", "swapcase"):
    # (the only context dependent mapping, final sigma, is not in any alphabet)
    setattr(SymStr, _n, _mapper(_n))


def _sym_capitalize(self):
    if not self._ch:
        return ""
    return mkstr(ch_map(self._ch[0], str.title) + tuple(c for a in self._ch[1:] for c in ch_map(a, str.lower)))


SymStr.capitalize = _sym_capitalize


def _sym_case(cased, other):
    def f(self):
        bad = sym_or(*[ch_pred(c, lambda x: getattr(x, other)() or x.istitle() and not getattr(x, cased)())
                       for c in self._ch])
        return sym_and(sym_not(bad), sym_or(*[ch_pred(c, lambda x: getattr(x, cased)()) for c in self._ch]))
    return f


SymStr.islower = _sym_case("islower", "isupper")
SymStr.isupper = _sym_case("isupper", "islower")
SymStr.isnumeric = lambda self: self._all(str.isnumeric)
SymStr.isdecimal = lambda self: self._all(str.isdecimal)


def _sym_translate(self, table):
    def f(c):
        try:
            t = table[ord(c)]
        except LookupError:
            return c
        return "" if t is None else chr(t) if isinstance(t, int) else t
    return mkstr([c for a in self._ch for c in ch_map(a, f)])


SymStr.translate = _sym_translate

for _n in ("title", "zfill", "center",
           "ljust", "rjust", "encode", "expandtabs", "isidentifier",
           "istitle", "format", "format_map"):
    def _mkr(n):
        def f(self, *a, **k):
            return getattr(self._r(), n)(*[realize(x) for x in a],
                                         **{kk: realize(v) for kk, v in k.items()})
        f.__name__ = n
        return f

    setattr(SymStr, _n, _mkr(_n))


def mkstr(chs):
    chs = tuple(chs)
    for c in chs:
        if type(c) is Ch:
            return SymStr(chs)
    return "".join(chs)


def chars(s):
    if type(s) is SymStr:
        return s._ch
    if type(s) is SymEnum:
        return tuple(s._r())
    return tuple(s)


def match_at(ch, i, s):
    if i < 0 or i + len(s) > len(ch):
        return False
    return sym_and(*[ch_eq(ch[i + k], s[k]) for k in range(len(s))])


def str_eq(a, o):
    if type(o) is SymEnum:
        return a == o._r()
    if not isinstance(o, str):
        return NotImplemented
    b = chars(o)
    if len(a._ch) != len(b):
        return False
    return sym_and(*[ch_eq(x, y) for x, y in zip(a._ch, b)])


def str_lt(a, o, eq):
    a, b = chars(a), chars(o)
    for x, y in zip(a, b):
        if ch_eq(x, y):
            continue
        zx = x.z if type(x) is Ch else z3.IntVal(ord(x))
        zy = y.z if type(y) is Ch else z3.IntVal(ord(y))
        return bool(mkbool(z3.simplify(zx < zy), ord(ch_conc(x)) < ord(ch_conc(y))))
    return len(a) < len(b) or (eq and len(a) == len(b))


def join(sep, it):
    items = list(it)
    if not any(type(x) in (SymStr, SymEnum) for x in items) and not is_sym(sep):
        return str.join(sep, items)
    if any(type(x) is SymEnum for x in items) and not any(type(x) is SymStr for x in items):
        r = items[0] if items else ""
        for x in items[1:]:
            r = r + sep + x
        return r
    out = []
    s = chars(sep)
    for k, x in enumerate(items):
        if not isinstance(x, str):
            raise TypeError(f"sequence item {k}: expected str instance, {type(x).__name__} found")
        if k:
            out.extend(s)
        out.extend(chars(x))
    return mkstr(out)


# -------------------------------------------------------------------- SymFloat
class SymFloat(float):
    """Opaque float: identity-tracked symbolic number (an uninterpreted atom)."""



    def __new__(cls, z, c):
        self = float.__new__(cls, c)
        self._z = z
        return self

    @property
    def __class__(self):
        return float

    @property
    def _c(self):
        return float.__add__(self, 0.0)

    def _r(self):
        return self._c

    def __hash__(self):
        HASHED[0] = True
        return hash(self._c)


SYM_TYPES = {SymBool, SymInt, SymEnum, SymStr, SymFloat}
REAL = {SymBool: bool, SymInt: int, SymEnum: str, SymStr: str, SymFloat: float}


def realize(x):
    return x._r() if type(x) in SYM_TYPES else x


def deep_realize(x):
    t = type(x)
    if t in SYM_TYPES:
        return x._r()
    if t is list:
        return [deep_realize(v) for v in x]
    if t is tuple:
        return tuple(deep_realize(v) for v in x)
    if t is dict:
        return {deep_realize(k): deep_realize(v) for k, v in x.items()}
    if t in (set, frozenset):
        return t(deep_realize(v) for v in x)
    return x


def deep_conc(x):
    """Concrete witness of a nested structure; no forks."""
    t = type(x)
    if t in SYM_TYPES:
        return x._c
    if t is list:
        return [deep_conc(v) for v in x]
    if t is tuple:
        return tuple(deep_conc(v) for v in x)
    if t is dict:
        return {deep_conc(k): deep_conc(v) for k, v in x.items()}
    if t in (set, frozenset):
        return t(deep_conc(v) for v in x)
    return x


# ------------------------------------------------------------------- factories
def new_int(name, lo, hi):
    z, c = cur().int_var(name, lo, hi)
    return SymInt(z, c)


def new_bool(name):
    z, c = cur().bool_var(name)
    return SymBool(z, c)


def new_enum(name, table, default=0):
    table = tuple(table)
    if len(table) == 1:
        return table[0]
    z, c = cur().int_var(name, 0, len(table) - 1, default=default)
    return SymEnum(z, table, c)


def choice(name, n):
    """Fork over 0..n-1 (complete); returns a concrete int."""
    if n <= 1:
        return 0
    z, c = cur().int_var(name, 0, n - 1)
    e = cur()
    # binary decision chain: k == 0, k == 1, ...
    for k in range(n - 1):
        if e.branch(z == k, c == k):
            return k
    return n - 1


def pick(name, seq):
    seq = list(seq)
    return seq[choice(name, len(seq))]


def new_char(name, alphabet):
    dom = tuple(sorted({ord(c) for c in alphabet}))
    if len(dom) == 1:
        return chr(dom[0])
    e = cur()
    z, c = e.int_var(name, None, None, default=ord(alphabet[0]) if not e.n_paths else e.rng.choice(dom))
    e.constrain(idx_in(z, dom))
    return Ch(z, dom, c)


def new_str(name, alphabet, lo, hi, free=False):
    n = lo + choice(name + ".len", hi - lo + 1)
    return SymStr([new_char(f"{name}[{i}]", alphabet) for i in range(n)], free) if n else ""

lift._sx_direct = True
