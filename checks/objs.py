"""Object grammar of the persistence harnesses.  Every maker returns a function that builds the object anew.

Values that json stores are symbolic (integers, booleans, strings of any characters); what native code
stores (arrays, bit generators, sparse matrices) is chosen from tables by symbolic choices."""
import collections
import datetime
import decimal
import fractions
import functools
import itertools
import operator
import pathlib
import random
import sqlite3
import string
import threading
import types
import uuid

import deep
import direct
import numpy as np
import objcls
import scipy.sparse as sp
from hlib import WIDE

KEYTEXT = "1t rue.0Nn-\x00\xe9"
FLOATS = [0.5, -0.0, float("nan"), float("inf"), -float("inf"), 5e-324, 1.7976931348623157e308, 0.1, 1.0]
BIG = [2 ** 63, -2 ** 64 - 1, 10 ** 400]


# ------------------------------------------------------------------ comparison
def same(a, b):
    """Same types, structure and values; True, False or a symbolic truth value."""
    return _cmp(a, b, {})


def _cmp(a, b, seen):
    if direct.issym(a) or direct.issym(b):
        if type(a) is not type(b):
            return False
        return a == b
    if a is b:
        return True
    t = type(a)
    if t is not type(b):
        return False
    key = direct.pair(a, b)
    if key in seen:
        return True
    if issubclass(t, (list, tuple)):
        seen[key] = (a, b)
        if len(a) != len(b):
            return False
        for x, y in zip(list(a), list(b)):
            if not _cmp(x, y, seen):
                return False
        return attrs_same(a, b, seen)
    if issubclass(t, dict):
        seen[key] = (a, b)
        if len(a) != len(b):
            return False
        for (k, v), (k2, v2) in zip(list(a.items()), list(b.items())):
            if not _cmp(k, k2, seen) or not _cmp(v, v2, seen):
                return False
        if not _cmp(getattr(a, "default_factory", None), getattr(b, "default_factory", None), seen):
            return False
        return attrs_same(a, b, seen)
    if issubclass(t, (set, frozenset)):
        if len(a) != len(b):
            return False
        rest = list(b)
        for x in list(a):
            found = False
            for i, y in enumerate(rest):
                if _cmp(x, y, seen):
                    del rest[i]
                    found = True
                    break
            if not found:
                return False
        return attrs_same(a, b, seen)
    if issubclass(t, np.ma.MaskedArray):
        return a.hardmask == b.hardmask and deep.same(a._fill_value, b._fill_value) is True \
            and deep.same(a.mask, b.mask) is True and (a.mask is np.ma.nomask) == (b.mask is np.ma.nomask) \
            and _cmp(a.data, b.data, seen)
    if issubclass(t, np.ndarray):
        seen[key] = (a, b)
        if a.dtype != b.dtype or a.shape != b.shape:
            return False
        if a.dtype == object:
            for x, y in zip(a.ravel().tolist(), b.ravel().tolist()):
                if not _cmp(x, y, seen):
                    return False
        elif not deep.same(a, b):
            return False
        return attrs_same(a, b, seen)
    if issubclass(t, functools.partial):
        return _cmp(a.func, b.func, seen) and _cmp(a.args, b.args, seen) and _cmp(a.keywords, b.keywords, seen) \
            and attrs_same(a, b, seen)
    if t is types.MethodType:
        return a.__func__ is b.__func__ and _cmp(a.__self__, b.__self__, seen)
    if t in (operator.attrgetter, operator.itemgetter, operator.methodcaller):
        return _cmp(a.__reduce__()[1], b.__reduce__()[1], seen)
    if t is collections.deque or issubclass(t, collections.deque):
        return a.maxlen == b.maxlen and _cmp(list(a), list(b), seen)
    if issubclass(t, (np.random.RandomState, np.random.Generator)):
        return deep.same(a, b) is True and attrs_same(a, b, seen)
    if issubclass(t, sp.spmatrix):
        return sparse_same(a, b) and added_same(a, b, seen)
    if hasattr(a, "get_params") or t.__module__.startswith("sklearn.") and hasattr(a, "__dict__"):
        seen[key] = (a, b)
        return attrs_same(a, b, seen)
    if t.__module__ == "objcls" and not issubclass(t, (int, str, float, bytes, Exception, datetime.date)):
        seen[key] = (a, b)
        return attrs_same(a, b, seen)
    if t.__module__.startswith("scipy.sparse"):
        return sparse_same(a, b)
    if issubclass(t, BaseException):
        return _cmp(a.args, b.args, seen) and attrs_same(a, b, seen)
    if t in (collections.UserDict, collections.UserList, collections.ChainMap, types.SimpleNamespace):
        seen[key] = (a, b)
        return attrs_same(a, b, seen)
    if t is np.random.Generator or t is np.random.RandomState:
        return deep.same(a, b) is True
    return deep.same(a, b) is True


def added_same(a, b, seen):
    """Attributes added to a sparse matrix."""
    own = ("_shape", "maxprint", "data", "indices", "indptr", "coords", "offsets", "row", "col", "blocksize")
    for n, v in vars(a).items():
        if n not in own and n[:1] != "_":
            if n not in vars(b) or not _cmp(v, vars(b)[n], seen):
                return False
    return True


def attrs_same(a, b, seen):
    if not _cmp(getattr(a, "__dict__", None), getattr(b, "__dict__", None), seen):
        return False
    for n in direct.slots(type(a)):
        if hasattr(a, n) != hasattr(b, n):
            return False
        if hasattr(a, n) and not _cmp(getattr(a, n), getattr(b, n), seen):
            return False
    return True


def sparse_same(a, b):
    if a.format != b.format or a.shape != b.shape or a.dtype != b.dtype:
        return False
    names = {"csr": ["data", "indices", "indptr"], "csc": ["data", "indices", "indptr"], "bsr": ["data", "indices", "indptr"],
             "coo": ["data", "coords"], "dia": ["data", "offsets"], "lil": ["rows", "data"], "dok": []}[a.format]
    for n in names:
        x, y = getattr(a, n), getattr(b, n)
        if n == "data":
            if not deep.same(np.asarray(x), np.asarray(y)):
                return False
        elif not np.array_equal(np.asarray(x), np.asarray(y)):
            return False
    return deep.same(a, b) is True


sparse_same._sx_direct = True


def layout(a):
    """Memory layout that a dump keeps."""
    if isinstance(a, np.ndarray) and a.dtype != object:
        return (a.flags.c_contiguous, a.flags.f_contiguous) if a.flags.c_contiguous or a.flags.f_contiguous else None
    return None


def layouts(a, b):
    x = layout(a)
    return x is None or x == layout(b)


layouts._sx_direct = layout._sx_direct = True


# --------------------------------------------------------------------- leaves
def scalar(ctx, l, free=True):
    k = ctx.pick(l + ".js", ["int", "str", "bool", "none", "float", "big"])
    l = l + ".js"
    if k == "int":
        v = ctx.int(l + ".i", -2 ** 70, 2 ** 70)
    elif k == "str":
        v = ctx.str(l + ".s", WIDE, 0, 2) if free else ctx.pick(l + ".st", ["", "a", "\x00", "\ud800", '"\\', "\U0001f600"])
    elif k == "bool":
        v = ctx.bool(l + ".b")
    elif k == "none":
        v = None
    elif k == "float":
        v = ctx.pick(l + ".f", FLOATS)
    else:
        v = ctx.pick(l + ".big", BIG)
    return v


def key(ctx, l, odd=False):
    """A dict key of the supported types (odd: any type)."""
    k = ctx.pick(l + ".kt", ["str", "int", "float", "npint", "npfloat", "npother"] + (["bool", "none", "odd", "sub"] if odd else []))
    if k == "str":
        return ctx.str(l + ".ks", KEYTEXT, 0, 2)
    if k == "int":
        return ctx.int(l + ".ki", -2, 2)
    if k == "float":
        return ctx.pick(l + ".kf", [1.0, -0.5, 0.1, 1e300])
    if k == "npint":
        return np.int64(ctx.pick(l + ".kn", [1, -1])) if ctx.bool(l + ".64") else np.uint8(1)
    if k == "npfloat":
        return ctx.pick(l + ".kg", [np.float32(0.1), np.float16(1), np.float64(1e-300), np.longdouble(1) / 3])
    if k == "npother":
        return ctx.pick(l + ".kc", [np.complex128(1 + 2j), np.complex64(1), np.str_("1")])
    if k == "bool":
        return True if ctx.bool(l + ".kb") else False
    if k == "none":
        return None
    if k == "sub":
        return ctx.pick(l + ".ksub", [objcls.MInt(1), objcls.MStr("1"), objcls.MFloat(1), objcls.SEnum.a, objcls.IEnum.a])
    return ctx.pick(l + ".ko", [np.bool_(False), np.bool_(True), (1,), b"1", np.datetime64(5, "ns"), np.timedelta64(5, "ns"), frozenset(),
                                np.bytes_(b"a"), np.datetime64("2020"), 1j, int, objcls.Enum.a, np.nan, range(2)])


# --------------------------------------------------------------------- tables
DT = ["<f8", "<f4", "<f2", "<f8", ">f8", ">i2", "<i8", "<u1", ">u4", "?", "<c16", ">c8", "g", "G", "U3", ">U2", "S2", "U0", "S0", "V3",
      "<M8[ns]", ">M8[D]", "<M8", "<m8[3s]", "m8",
      [("a", "<i4"), ("b", ">f8")], [("a", "U2"), ("b", [("c", "i1", (2,))])], [("x", "V2")], [(("title", "n"), "i2")]]
SHAPES = [(), (0,), (3,), (2, 3), (0, 3), (2, 0, 2), (1, 1), (2, 2, 2)]


def array(dt, shape, order, aligned=False):
    d = np.dtype(dt, align=aligned) if aligned else np.dtype(dt)
    n = int(np.prod(shape))
    if d.kind in "US":
        vals = (["a\0\xe9", "", "\0b", "zz"] if d.kind == "U" else [b"a\0b", b"", b"\xff", b"z"]) * n
        a = np.array(vals[:n], dtype=d).reshape(shape) if n else np.empty(shape, d)
    elif d.kind in "V":
        raw = np.frombuffer(bytes((i * 37 + 11) % 251 for i in range(d.itemsize * max(n, 1))), dtype=np.uint8)
        a = np.zeros(max(n, 1), dtype=d)
        if d.names is None:
            a = raw.copy().view(d)
        else:
            fill(a)
        a = a[:n].reshape(shape)
    elif d.kind in "mM":
        a = np.arange(n, dtype="i8").view("i8").astype("i8").reshape(shape).astype(d) if d != np.dtype("M8") and d != np.dtype("m8") \
            else np.full(shape, "NaT", dtype=d)
        if n:
            a = np.array(a)
            a.reshape(-1)[-1] = "NaT"
    else:
        a = (np.arange(n) * 37 % 11).astype(d).reshape(shape)
        if d.kind in "fc" and n:
            a = np.array(a)
            a.reshape(-1)[0] = np.nan
            a.reshape(-1)[-1] = -0.0
    a = np.array(a, dtype=d)
    if order == "F":
        return np.asfortranarray(a) if a.ndim else a
    if order == "slice" and a.ndim:
        big = np.empty([2 * s for s in a.shape], dtype=d)
        v = big[tuple(slice(None, None, 2) for _ in a.shape)]
        v[...] = a
        return v
    if order == "rev" and a.ndim:
        return a[::-1]
    if order == "ro":
        a.flags.writeable = False
    return a


def fill(a):
    for n in a.dtype.names:
        f = a[n]
        if f.dtype.names:
            fill(f)
        elif f.dtype.kind == "U":
            f[...] = "\xe9x"
        elif f.dtype.kind == "V":
            f[...] = np.void(b"\x01\x02")
        else:
            f[...] = np.arange(f.size).reshape(f.shape) - 1


def npscalar(i):
    return [lambda: np.float64("nan"), lambda: np.float32(0.1), lambda: np.float16(-0.0), lambda: np.longdouble(1) / 3,
            lambda: np.complex64(1 + 2j), lambda: np.clongdouble(1j) / 3, lambda: np.int8(-5), lambda: np.uint64(2 ** 64 - 1),
            lambda: np.longlong(7), lambda: np.bool_(True), lambda: np.bool_(False), lambda: np.str_("a\0\xe9"), lambda: np.str_(""),
            lambda: np.bytes_(b"a\xff"), lambda: np.bytes_(b""), lambda: np.datetime64(5, "ns"), lambda: np.datetime64("NaT"),
            lambda: np.timedelta64(3, "D"), lambda: np.void(b"\x00\x01"), lambda: array([("a", "i4"), ("b", "U2")], (1,), "C")[0],
            lambda: np.rec.array([(1, 2.0)], dtype=[("a", "i4"), ("b", "f8")])[0]][i]()


NSCALAR = 21
DTYPES = [*DT, object, "m8", ("f4", (2,)), ("f8", (2, 3)), "V", [("a", "f4", (2,))], "U", "S5"]


def dtype(i, align):
    return np.dtype(DTYPES[i], align=True) if align and isinstance(DTYPES[i], list) else np.dtype(DTYPES[i])


def masked(i, j):
    data = [lambda: np.arange(3.0), lambda: np.asfortranarray(np.arange(4).reshape(2, 2)), lambda: np.array(5), lambda: np.empty((0, 2)),
            lambda: array([("a", "i4"), ("b", "f8")], (2,), "C"), lambda: np.array(["a", "b"]), lambda: objarray((2,), [1, None]),
            lambda: np.array([1, 2], ">i4")][i]()
    mask = [np.ma.nomask, False, True, None][j % 4]
    if mask is None:
        m = np.zeros(data.shape, dtype=bool)
        if m.size:
            m.reshape(-1)[0] = True
        a = np.ma.MaskedArray(data, m)
    else:
        a = np.ma.MaskedArray(data, mask)
    k = j // 4
    if k == 1 and data.dtype.kind in "if":
        a.fill_value = 7
    if k == 1 and data.dtype.kind == "U":
        a.fill_value = "z"
    if k == 2:
        a.harden_mask()
    return a


def objarray(shape, cells, order="C"):
    a = np.empty(shape, dtype=object, order=order)
    f = np.empty(int(np.prod(shape)), dtype=object)
    for i in range(len(f)):
        f[i] = cells[i % len(cells)]
    a[...] = f.reshape(shape)
    return a


BITGEN = ["MT19937", "PCG64", "PCG64DXSM", "Philox", "SFC64"]


def rng(name, kind, steps, seed):
    bg = getattr(np.random, name)(seed_of(seed))
    r = np.random.RandomState(bg) if kind == "RandomState" else np.random.Generator(bg)
    for s in steps:
        if s == "normal":
            r.normal()
        elif s == "int32":
            (r.randint if kind == "RandomState" else r.integers)(0, 5, dtype=np.int32)
        elif s == "spawn" and kind != "RandomState":
            bg.seed_seq.spawn(2)
        elif s == "many":
            r.random(700)
    return r


def seed_of(i):
    return [3, [1, 2], np.random.SeedSequence(2 ** 130, spawn_key=(1, 2), pool_size=8), np.random.SeedSequence([5, 2 ** 40]).spawn(2)[1]][i]


def draws(r):
    a = [r.normal(), r.random(3).tolist(), int((r.integers if hasattr(r, "integers") else r.randint)(0, 1000)), r.normal()]
    if hasattr(r, "bit_generator"):
        try:
            a.append(r.bit_generator.seed_seq.spawn(1)[0].generate_state(2).tolist())
        except AttributeError:
            a.append(None)
    return repr(a)


def sparse(fmt, arr, i):
    m = [lambda: np.array([[0, 1.5, 0], [2, 0, 0]]), lambda: np.zeros((2, 2)), lambda: np.zeros((0, 3)), lambda: np.array([[1]], ">i2"),
         lambda: np.array([[True, False]]), lambda: np.array([[1j, 0]]), lambda: np.array([[1, 0], [0, 3]], dtype="u1"),
         lambda: np.array([[np.nan, -1.0], [0, np.inf]], "f4")][i % 8]()
    m = m.astype(m.dtype.newbyteorder("=")) if m.dtype.byteorder == ">" else m
    s = (sp.csr_array if arr else sp.csr_matrix)(m)
    s = s.asformat(fmt)
    if i >= 8 and fmt == "csr" and s.nnz:      # explicit zero, unsorted, duplicates
        c = type(s)((np.array([1, 0, 2]).astype(s.dtype), np.array([m.shape[1] - 1, 0, 0]), np.array([0, 3] + [3] * (m.shape[0] - 1))), shape=m.shape)
        return c
    return s


UFUNCS = [np.sqrt, np.add, np.logaddexp]
TYPES = [int, str, dict, np.float64, np.ndarray, collections.OrderedDict, objcls.Plain, float, set, bytes, type]

for _f in (array, npscalar, dtype, masked, rng, draws, sparse, fill, seed_of):
    _f._sx_direct = True

ATOMS = ["json", "bytes", "bytearray", "slice", "array", "npscalar", "dtype", "masked", "objarray", "rs", "gen", "sparse", "ufunc", "type",
         "attrgetter", "itemgetter"]
CONT = ["list", "tuple", "set", "dict", "OrderedDict", "defaultdict", "partial"]


EDGES = [0, 9, 10, 13, 26, 32, 34, 61, 92, 127, 128, 255]


def edged(ctx, l):
    """A body between runs of one byte at either end."""
    body = ctx.pick(l + ".body", [b"", b"a", b"abc" * 100, bytes(range(256)), b"\r\n\n\r" * 3, b"x\n" * 40000, b"\x80\x04K\x01."])
    a, b = EDGES[ctx.choice(l + ".a", len(EDGES))], EDGES[ctx.choice(l + ".b", len(EDGES))]
    i, j = ctx.choice(l + ".i", 4), ctx.choice(l + ".j", 4)
    return bytes([a]) * i + body + bytes([b]) * j


def supported(ctx, l, depth, kinds=None, free=True, wide=True):
    """A value from the supported families."""
    k = ctx.pick(l, kinds or (CONT + ATOMS if depth else ATOMS))
    l = l + "." + k

    def sub(n):
        return supported(ctx, l + n, depth - 1, None if depth > 1 else ["json", "array", "bytes", "npscalar", "list"] if not wide else None, free, wide)

    if k == "json":
        v = scalar(ctx, l, free)
        return lambda: v
    if k in ("bytes", "bytearray"):
        c = ctx.pick(l + ".by", [b"", b"\x00\xff", b"abc" * 100]) if depth or not free else edged(ctx, l)
        return (lambda: bytes(c)) if k == "bytes" else (lambda: bytearray(c))
    if k == "slice":
        vs = [None, 1, -2 ** 70, "a", 1.5]
        a, b, c = ctx.pick(l + ".a", vs), ctx.int(l + ".b", -5, 5), ctx.pick(l + ".c", [None, True, -1])
        return lambda: slice(a, b, c)
    if k == "array":
        d, s, o = ctx.choice(l + ".d", len(DT)), ctx.pick(l + ".sh", SHAPES), ctx.pick(l + ".o", ["C", "F", "slice", "rev", "ro"])
        return lambda: array(DT[d], s, o)
    if k == "npscalar":
        i = ctx.choice(l + ".n", NSCALAR)
        return lambda: npscalar(i)
    if k == "dtype":
        i, al = ctx.choice(l + ".n", len(DTYPES)), ctx.bool(l + ".al")
        al = True if al else False
        return lambda: dtype(i, al)
    if k == "masked":
        i, j = ctx.choice(l + ".n", 8), ctx.choice(l + ".m", 12)
        return lambda: masked(i, j)
    if k == "objarray":
        s = ctx.pick(l + ".sh", [(1,), (3,), (1, 2), (2, 1), (2, 2), (1, 1, 2)])
        cs = [scalar(ctx, l + ".c0", free), ctx.pick(l + ".c1", ["", "ab", None, 1.5])]
        o = ctx.pick(l + ".o", ["C", "F"])
        return lambda: objarray(s, cs, o)
    if k in ("rs", "gen"):
        g = ctx.pick(l + ".g", BITGEN)
        st = ctx.pick(l + ".st", [(), ("normal",), ("int32",), ("many",), ("spawn",)])
        sd = ctx.choice(l + ".sd", 4)
        kind = "RandomState" if k == "rs" else "Generator"
        return lambda: rng(g, kind, st, sd)
    if k == "sparse":
        f, i = ctx.pick(l + ".f", ["csr", "csc", "coo", "bsr", "dia"]), ctx.choice(l + ".n", 16)
        arr = True if ctx.bool(l + ".arr") else False
        return lambda: sparse(f, arr, i)
    if k == "ufunc":
        u = ctx.pick(l + ".u", UFUNCS)
        return lambda: u
    if k == "type":
        u = ctx.pick(l + ".u", TYPES)
        return lambda: u
    if k == "attrgetter":
        u = ctx.pick(l + ".u", [("a",), ("a.b", "c"), ("\xe9",)])
        return lambda: operator.attrgetter(*u)
    if k == "itemgetter":
        i = ctx.int(l + ".i", -3, 3)
        u = ctx.pick(l + ".u", [(), ("a",), (None, 1.5)])
        return lambda: operator.itemgetter(i, *u)
    if k == "list":
        n = ctx.choice(l + ".n", 3)
        xs = [sub(str(i)) for i in range(n)]
        return lambda: [x() for x in xs]
    if k == "tuple":
        n = ctx.choice(l + ".n", 3)
        xs = [sub(str(i)) for i in range(n)]
        return lambda: tuple([x() for x in xs])
    if k == "set":
        n = ctx.choice(l + ".n", 3)
        xs = [ctx.pick(l + f".s{i}", [1, "a", None, 1.5, True, (1, "b"), np.float32(1), b"x"]) for i in range(n)]
        return lambda: set(xs)
    if k in ("dict", "OrderedDict", "defaultdict"):
        n = ctx.choice(l + ".n", 3)
        ks = [key(ctx, l + f".{i}") for i in range(n)]
        xs = [sub(str(i)) for i in range(n)]
        if k == "defaultdict":
            f = ctx.pick(l + ".df", [None, list, int, objcls.Plain])
            return lambda: put(collections.defaultdict(f), ks, xs)
        return lambda: put({} if k == "dict" else collections.OrderedDict(), ks, xs)
    if k == "partial":
        f = ctx.pick(l + ".fn", [np.sqrt, int, dict])
        a = sub("a") if ctx.bool(l + ".arg") else None
        kw = sub("k") if ctx.bool(l + ".kw") else None
        ns = sub("n") if ctx.bool(l + ".ns") else None

        def mk():
            p = functools.partial(f, *([a()] if a else []), **({"base": kw()} if kw else {}))
            if ns:
                p.extra = ns()
            return p
        return mk
    raise AssertionError(k)


def put(d, ks, xs):
    for k, x in zip(ks, xs):
        d[k] = x()
    return d


# ------------------------------------------------ anything, supported or not
ODD = {
    "sub": lambda v: [lambda: objcls.MInt(3), lambda: objcls.MStr("a"), lambda: objcls.MFloat(1.5), lambda: objcls.MBytes(b"a"),
                      lambda: objcls.MDate(2020, 1, 2), lambda: objcls.MTuple((1, 2)), lambda: objcls.MNT(1, 2), lambda: objcls.SEnum.a,
                      lambda: objcls.IEnum.a, lambda: objcls.Enum.a, lambda: objcls.MPartial(int, base=2), lambda: objcls.MFrozen([1])],
    "subc": lambda v: [lambda: objcls.MList([v()]), lambda: objcls.MDict({1: v()}), lambda: objcls.MSet([1]), lambda: objcls.MDefault(list, {1: v()}),
                       lambda: objcls.MCounter("ab"), lambda: objcls.attr(objcls.MList([1]), x=v()), lambda: objcls.attr(objcls.MDict(), x=v()),
                       lambda: objcls.attr(objcls.MSet([1]), x=v()), lambda: objcls.attr(collections.OrderedDict(), x=v()),
                       lambda: objcls.attr(objcls.MDefault(list), x=v()), lambda: objcls.MTuple((v(),))],
    "coll": lambda v: [lambda: frozenset([1, "a"]), lambda: frozenset(), lambda: collections.deque([v()]), lambda: collections.deque([], 3),
                       lambda: collections.Counter([1, "1"]), lambda: objcls.NT(v(), 1), lambda: range(1, 9, 2), lambda: collections.ChainMap({1: v()}),
                       lambda: collections.UserDict({"a": v()}), lambda: collections.UserList([v()]), lambda: objcls.MDeque([v()]),
                       lambda: types.SimpleNamespace(a=v()), lambda: types.MappingProxyType({"a": 1}), lambda: iter([1, 2]), lambda: {1: 2}.keys()],
    "value": lambda v: [lambda: 1 + 2j, lambda: datetime.datetime(2020, 1, 2, 3, 4, 5, 6), lambda: datetime.datetime(2020, 1, 2, tzinfo=datetime.timezone.utc),
                        lambda: datetime.date(2020, 1, 2), lambda: datetime.time(1, 2, 3), lambda: datetime.timedelta(1, 2, 3),
                        lambda: datetime.timezone(datetime.timedelta(hours=2), "x"), lambda: decimal.Decimal("1.50"), lambda: fractions.Fraction(1, 3),
                        lambda: uuid.UUID(int=5), lambda: pathlib.PurePosixPath("/a/b"), lambda: Ellipsis, lambda: NotImplemented, lambda: memoryview(b"a"),
                        lambda: objcls.MError("a", 1), lambda: objcls.attr(objcls.MError("a"), x=1), lambda: KeyError("a"), lambda: OSError(1, "a"),
                        lambda: threading.Lock(), lambda: itertools.chain([1], [2]), lambda: sqlite3.connect(":memory:"), lambda: itertools.count(3),
                        lambda: random.Random(3), lambda: object(), lambda: string.Template("a"), lambda: decimal.Context(5), lambda: zip([1], [2]),
                        lambda: {1: property()}, lambda: {"a": property(), "b": 1}],
    "object": lambda v: [lambda: objcls.Plain(a=v()), lambda: objcls.Plain(), lambda: objcls.GetState(v()), lambda: objcls.GetStateOnly(v()),
                         lambda: objcls.TupleState(v()), lambda: objcls.attr(objcls.SlotState(), a=v(), q=1, r=2), lambda: objcls.attr(objcls.Slots(), a=v()),
                         lambda: objcls.Reduce2(v(), 1), lambda: objcls.Reduce3(v()), lambda: objcls.ReduceF(v()), lambda: objcls.Sub(a=v(), b=[v()]),
                         lambda: objcls.AnyState(objcls.some(v())), lambda: objcls.AnyState([]), lambda: objcls.AnyState({}), lambda: objcls.AnyState(()),
                         lambda: objcls.AnyState([v()]), lambda: objcls.AnyState({"a": v()}), lambda: objcls.AnyState(({"a": 1}, {"b": v()})),
                         lambda: objcls.AnyState(b""), lambda: objcls.AnyState(np.zeros(0)), lambda: objcls.AnyState(np.arange(3)),
                         lambda: objcls.ListState(), lambda: objcls.ListState(v()), lambda: objcls.DictSetup(), lambda: objcls.DictSetup(a=v()),
                         lambda: objcls.SetStateOnly(v()), lambda: objcls.Guarded(v()), lambda: objcls.Cached(v()), lambda: objcls.attr(objcls.Cached(1), b=v()),
                         lambda: objcls.attr(objcls.SlotsDerived(), a=v()), lambda: objcls.attr(objcls.SlotsDerived(), b=v(), a=1),
                         lambda: objcls.attr(objcls.SlotsDict(), a=v(), q=2), lambda: objcls.SlotsDict(), lambda: objcls.Mangled(v()), lambda: objcls.MangledSlots(v()),
                         lambda: objcls.NewDefault(v()), lambda: objcls.WithMeta(v()),
                         lambda: objcls.unmade(objcls.WithMeta(v()), "meta"), lambda: objcls.putvars(objcls.Plain(), 1, v()),
                         lambda: objcls.putvars(objcls.Plain(a=1), "", v()), lambda: objcls.putvars(objcls.Plain(), (1, 2), v()),
                         lambda: objcls.putvars(objcls.Plain(a=1), None, v())],
    "call": lambda v: [lambda: objcls.Plain(a=v()).run, lambda: objcls.Plain.build, lambda: method_of(v()), lambda: [1].append, lambda: np.ones(2).sum,
                       lambda: len, lambda: dict.fromkeys, lambda: functools.partial(objcls.function, v(), k=v()), lambda: operator.methodcaller("a", v()),
                       lambda: operator.methodcaller("a", k=1), lambda: operator.attrgetter("a", "b"), lambda: operator.itemgetter(slice(1, 2), 0),
                       lambda: objcls.function, lambda: (lambda: 1), lambda: np.random.RandomState(1).rand, lambda: np.mean, lambda: objcls.Plain.run,
                       lambda: objcls.Plain.alias, lambda: type(None), lambda: np.random.default_rng(1).random, lambda: aliased(v())],
    "slices": lambda v: [lambda: slice((1, 2), None), lambda: slice(np.int64(1), 2), lambda: slice(v(), None), lambda: slice(None, np.float64(1)),
                         lambda: slice(True, objcls.MInt(1)), lambda: slice([1], {1: 2})],
    "arrays": lambda v: [lambda: objarray((2, 1), [[1], [2]]), lambda: objarray((2,), [[1], [2]]), lambda: objarray((2, 2), [(1, 2), v()]),
                         lambda: objarray((), [v()]), lambda: objarray((0, 3), [1]), lambda: objarray((2, 0), [1]), lambda: objarray((0,), [1]),
                         lambda: objarray((1, 2, 2), [[v()], {}, (), np.ones(2)]), lambda: objarray((2, 2), [1, 2, 3, 4], "F"),
                         lambda: np.matrix([[1, 2]]), lambda: np.matrix([[1, "a"]], dtype=object), lambda: np.array([2, 3]).view(objcls.Arr),
                         lambda: objcls.attr(np.array([2, 3]).view(objcls.ArrInfo), info=v()), lambda: np.rec.array([(1, 2.0)], dtype=[("a", "i4"), ("b", "f8")]),
                         lambda: np.ma.masked, lambda: np.ma.array(np.matrix([[1]])), lambda: np.str_("a\0"), lambda: np.bytes_(b"\0"),
                         lambda: np.array([(1,)], dtype=[("a", "O")]), lambda: np.dtype([("a", "O")]), lambda: np.dtype((("f4", 2), 3)),
                         lambda: np.ma.array(objarray((2, 1), [[1], v()]), mask=[[0], [1]]), lambda: objarray((2,), [np.ones(2), np.zeros(2)]),
                         lambda: np.random.PCG64(3), lambda: sp.eye(2).tolil(), lambda: sp.eye(2).todok(), lambda: sp.eye_array(2).tolil(),
                         lambda: sp.eye_array(2).todok(), lambda: sp.coo_array(np.array([0, 1]))],
    "user": lambda v: [lambda: objcls.attr(objcls.MRandom(1), x=v()), lambda: objcls.MRandom(1), lambda: objcls.attr(objcls.MGen(np.random.PCG64(1)), x=v()),
                       lambda: objcls.MGen(np.random.PCG64(1)), lambda: objcls.MCsr(np.eye(2)), lambda: objcls.attr(sp.csr_matrix(np.eye(2)), x=v()),
                       lambda: objcls.MCoo(np.eye(2)), lambda: objcls.attr(sp.coo_array(np.eye(2)), x=v()), lambda: objcls.Static(a=v()),
                       lambda: objcls.Static.s, lambda: objcls.Static(a=v()).s, lambda: objcls.Derived(a=v()).run, lambda: super(objcls.Derived, objcls.Derived(a=v())).run,
                       lambda: types.MethodType(objcls.Plain.run, objcls.Derived(a=v())), lambda: objcls.Derived.build, lambda: objcls.NewArgs(v()),
                       lambda: objcls.attr(objcls.Dynamic(), a=v()), lambda: objcls.Data(v(), [v()]), lambda: objcls.DataF(v()), lambda: objcls.DataS(v()),
                       lambda: np.poly1d([1, 2]), lambda: np.vectorize(np.sqrt), lambda: np.finfo("f8"), lambda: np.iinfo("i4"), lambda: np.random.SeedSequence(5),
                       lambda: functools.lru_cache(objcls.function), lambda: functools.partialmethod(objcls.function, v()),
                       lambda: functools.partial(functools.partial(objcls.function, v())), lambda: list[int], lambda: int | str],
    "sklearn": lambda v: [lambda: sk("tree"), lambda: sk("mtree"), lambda: objcls.attr(sk("mtree"), x=v()), lambda: sk("kd"), lambda: sk("ball"), lambda: sk("bunch", a=v()),
                          lambda: sk("metric"), lambda: sk("pinball"), lambda: sk("mpinball"), lambda: sk("hinge"), lambda: sk("mhinge"), lambda: sk("loss"),
                          lambda: objcls.attr(sk("est"), x=v()), lambda: sk("ft", func=objcls.function, kw_args={"a": v()}), lambda: sk("ft", func=abs),
                          lambda: sk("df", data={"a": [1.5]}), lambda: sk("series", data=[1]), lambda: sk("birch")],
}


SK = {}


def sk(kind, **kw):
    """Objects of scikit-learn (and pandas)."""
    if not SK:
        import pandas as pd
        import sklearn._loss
        import sklearn._loss._loss as loss
        import sklearn.linear_model._sgd_fast as sgd
        from sklearn.cluster import Birch
        from sklearn.linear_model import LogisticRegression
        from sklearn.metrics import DistanceMetric
        from sklearn.neighbors import BallTree, KDTree
        from sklearn.preprocessing import FunctionTransformer
        from sklearn.tree import DecisionTreeClassifier
        from sklearn.tree._tree import Tree
        from sklearn.utils import Bunch
        X, y = np.random.RandomState(0).rand(8, 2), np.arange(8) % 2
        red = DecisionTreeClassifier(random_state=0).fit(X, y).tree_.__reduce__()
        own = {n: type("M" + c.__name__, (c,), {"__module__": "objcls"}) for n, c in (("t", Tree), ("p", loss.CyPinballLoss), ("h", sgd.Hinge))}
        for c in own.values():
            setattr(objcls, c.__name__, c)

        def tree(c):
            t = c(*red[1])
            t.__setstate__(red[2])
            return t
        SK.update(tree=lambda: tree(Tree), mtree=lambda: tree(own["t"]), kd=lambda: KDTree(X), ball=lambda: BallTree(X, metric="manhattan"),
                  bunch=Bunch, metric=lambda: DistanceMetric.get_metric("minkowski", p=3), pinball=lambda: loss.CyPinballLoss(0.3),
                  mpinball=lambda: own["p"](0.3), hinge=lambda: sgd.Hinge(0.5), mhinge=lambda: own["h"](0.5), loss=lambda: sklearn._loss.PinballLoss(quantile=.2),
                  est=lambda: LogisticRegression().fit(X, y), ft=FunctionTransformer, df=pd.DataFrame, series=pd.Series, birch=Birch)
    return SK[kind](**kw)


sk._sx_direct = True


def method_of(v):
    """A method under a name that its class does not know."""
    return types.MethodType(objcls.function, objcls.Plain(a=v))


def aliased(v):
    o = objcls.Plain(a=v)
    o.run = types.MethodType(objcls.function, o)
    return objcls.Plain.run.__get__(o)


def anything(ctx, l, depth, groups=None):
    g = ctx.pick(l + ".g", groups or (["ok", "keys", *ODD] if depth else list(ODD)))
    l = l + "." + g
    if g == "ok":
        return supported(ctx, l + ".ok", 1, free=False, wide=False)
    if g == "keys":
        n = ctx.choice(l + ".n", 2) + 1
        ks = [key(ctx, l + f".{i}", True) for i in range(n)]
        cl = ctx.pick(l + ".cl", [dict, collections.OrderedDict, collections.Counter, objcls.MDict])
        xs = [lambda i=i: i for i in range(n)]
        return lambda: put(cl(), ks, xs)
    if depth > 1:
        child = anything(ctx, l + "c", depth - 1)
    elif g in ("sub", "value"):
        child = None
    else:
        v = scalar(ctx, l + ".v", False) if depth else 1
        child = lambda: v
    return ctx.pick(l + ".i", ODD[g](child))


WRAPS = ["none", "list", "dict", "tuple", "object", "objarray", "partial", "defaultdict", "masked", "method", "reduce"]


def wrap(ctx, l, x, kinds=WRAPS):
    """x at a position inside of another object."""
    w = ctx.pick(l, kinds)
    return {"none": x, "list": lambda: [1, x(), "z"], "dict": lambda: {"a": 1, 2: x(), "b": []}, "tuple": lambda: (x(), 1),
            "object": lambda: objcls.Plain(b=1, a=x()), "objarray": lambda: objarray((3,), [1, x(), "a"]),
            "partial": lambda: functools.partial(objcls.function, 1, k=x()), "defaultdict": lambda: collections.defaultdict(list, {"a": x()}),
            "masked": lambda: np.ma.array(objarray((2,), [x(), 1]), mask=[False, True]), "method": lambda: objcls.Plain(a=x()).run,
            "reduce": lambda: objcls.Reduce2(1, x()), "default_factory": lambda: collections.defaultdict(x()),
            "getstate": lambda: objcls.GetState(x()), "itemgetter": lambda: operator.itemgetter(x())}[w]
