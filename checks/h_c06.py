"""C06: the sharing structure of the object graph is preserved."""
import arch
import ident
import numpy as np
import objcls
import objs

INSTRUMENT = ["objs", "objcls"]

ASSUMPTIONS = [
    "identity is compared for lists, dicts, sets, bytearrays, arrays, sparse matrices, generators, estimators and other "
    "objects with attributes; tuples, partials and methods are immutable and only followed",
    "the allocator is modelled by id(): an object that skops asked the id of and that nothing refers to any more may "
    "give its id to any object asked for later (every such reuse, or one of symbolic number, newest or oldest first)",
    "members are counted where no part of the graph computes arrays of its own while it is dumped",
]

CONT = ["list", "dict", "tuple", "object", "objarray", "partial", "defaultdict", "method", "getstate", "od", "estimator", "sub", "masked", "reduce"]
LEAF = ["list", "dict", "set", "bytearray", "array", "F", "empty", "sparse", "sparray", "rs", "gen", "object", "objarray", "estimator", "masked", "dd", "sub", "matrix",
        "void", "od", "view"]


def leaf(kind):
    a = np.arange(4.0)
    return {"list": lambda: [1], "dict": lambda: {"a": 1}, "set": lambda: {1}, "bytearray": lambda: bytearray(b"a"), "array": lambda: np.arange(3),
            "F": lambda: np.asfortranarray(np.ones((2, 3))), "empty": lambda: np.empty(0), "sparse": lambda: objs.sparse("csr", False, 0),
            "sparray": lambda: objs.sparse("coo", True, 0), "rs": lambda: np.random.RandomState(0), "gen": lambda: np.random.default_rng(0),
            "object": lambda: objcls.Plain(a=1), "objarray": lambda: objs.objarray((2,), [1, None]), "estimator": lambda: estimator([]),
            "masked": lambda: np.ma.array([1, 2], mask=[0, 1]), "dd": lambda: objs.collections.defaultdict(list), "sub": lambda: objcls.MList([1]),
            "matrix": lambda: np.matrix([[1, 2]]), "void": lambda: np.zeros(2, dtype=[("a", "i4")]), "od": lambda: objs.collections.OrderedDict(a=1),
            "view": lambda: a[:]}[kind]()


def estimator(xs):
    from sklearn.linear_model import LogisticRegression
    e = LogisticRegression()
    for i, x in enumerate(xs):
        setattr(e, f"x{i}_", x)
    return e


def cont(kind, xs):
    """A container of the objects xs."""
    if kind == "list":
        return [*xs]
    if kind == "dict":
        return {i: x for i, x in enumerate(xs)}
    if kind == "tuple":
        return tuple(xs)
    if kind == "object":
        return objcls.Plain(**{f"a{i}": x for i, x in enumerate(xs)})
    if kind == "objarray":
        return objs.objarray((len(xs), 1), xs)
    if kind == "partial":
        return objs.functools.partial(dict, *xs[:1], **{f"k{i}": x for i, x in enumerate(xs[1:])})
    if kind == "defaultdict":
        return objs.put(objs.collections.defaultdict(list), list(range(len(xs))), [lambda x=x: x for x in xs])
    if kind == "method":
        return objcls.Plain(a=list(xs)).run
    if kind == "getstate":
        return objcls.GetState(list(xs))
    if kind == "od":
        return objs.collections.OrderedDict([(f"k{i}", x) for i, x in enumerate(xs)])
    if kind == "sub":
        return objcls.MList(xs)
    if kind == "masked":
        return np.ma.array(objs.objarray((len(xs),), xs), mask=[True] + [False] * (len(xs) - 1))
    if kind == "reduce":
        return objcls.Reduce2(*xs)
    return estimator(xs)


def alloc(ctx):
    k = ctx.pick("ids", ["real", "newest", "oldest", "one"])
    if k == "real":
        return None
    if k == "one":
        return ident.Allocator(ctx.choice("when", 60), ctx.pick("which", ["newest", "oldest"]))
    return ident.Allocator(-1, k)


def roundtrip(ctx, x, a, exact=True):
    from skops.io import dumps, get_untrusted_types, loads
    if a:
        ident.install(a)
    try:
        data = dumps(x)
        y = loads(data, trusted=get_untrusted_types(data=data))
        err = ""
    except Exception as exc:
        err = "the graph cannot be dumped and loaded: " + type(exc).__name__
    finally:
        if a:
            ident.uninstall()
    ctx.check(not err, err)
    m = ident.partition(x, y)
    ctx.check(not m, m or "")
    ctx.check(objs.same(x, y), "the contents differ")
    if exact and ident.plain_arrays(x):
        ctx.check(ident.arrays(x) == ident.members(data), "an array is not stored exactly once")
    ctx.outcome = "same"


def pair(conts, leaves, ids):
    """x in two containers, or two equal ones."""
    def fn(ctx):
        arch.begin()
        k = ctx.pick("leaf", leaves)
        x = leaf(k)
        y = x if ctx.bool("shared") else leaf(k)
        c, d = ctx.pick("c", conts), ctx.pick("d", CONT)
        nest = ctx.pick("nest", [None, "list", "objarray", "object"])
        one, two = cont(c, [x]), cont(d, [1, y])
        if nest:
            two = cont(nest, [two, None])
        roundtrip(ctx, [one, two] if ctx.bool("order") else {"b": two, "a": one}, alloc(ctx) if ids else None)
    return fn


def dag(kinds, n, ids):
    """n containers, each refers to two later ones or leaves."""
    def fn(ctx):
        arch.begin()
        lv = [leaf(ctx.pick("leaf", ["list", "array", "sparse", "rs", "objarray"])), leaf("array"), None]
        nodes = list(lv)
        for i in range(n):
            k = ctx.pick(f"k{i}", kinds)
            m = min(len(nodes), 5)
            a, b = nodes[-1 - ctx.choice(f"a{i}", m)], nodes[-1 - ctx.choice(f"b{i}", m)]
            nodes.append(cont(k, [a, b]))
        roundtrip(ctx, nodes[-1], alloc(ctx) if ids else None)
    return fn


def temporaries(ctx):
    """Many short-lived objects of the same size between two stored ones."""
    arch.begin()
    n = ctx.pick("n", [3, 40, 300])
    k = ctx.pick("kind", ["objarray", "getstate", "estimator", "masked", "dtype", "slots", "tuplestate", "dict keys", "view", "method"])
    mk = {"objarray": lambda i: objs.objarray((2, 1), [[i], (i, [i])]), "getstate": lambda i: objcls.GetState([i]),
          "estimator": lambda i: estimator([[i], np.arange(i)]), "masked": lambda i: np.ma.array([i, 2], mask=[0, 1]),
          "dtype": lambda i: np.zeros(i % 3, dtype=[("a", "i4"), ("b", "f8")]), "slots": lambda i: objcls.attr(objcls.SlotState(), a=[i], q=i),
          "tuplestate": lambda i: objcls.TupleState([i]), "dict keys": lambda i: {i: [i], str(i): i, float(i + .5): [i]},
          "view": lambda i: np.arange(9)[i % 4:], "method": lambda i: objcls.Plain(a=[i]).run}[k]
    x = [mk(i) for i in range(n)]
    a = alloc(ctx)
    for i in range(ctx.pick("again", [0, 1, 7])):
        x.append(x[(i * 3) % n])
    roundtrip(ctx, x, a)


def once(ctx):
    """A second reference to an array does not add members."""
    from skops.io import dumps
    arch.begin()
    x = leaf(ctx.pick("leaf", ["array", "F", "empty", "sparse", "masked", "matrix", "void", "view"]))
    c, d = ctx.pick("c", CONT), ctx.pick("d", CONT)
    n = ctx.choice("n", 3)
    a = alloc(ctx)
    if a:
        ident.install(a)
    try:
        y = [cont(c, [x])]
        one = ident.members(dumps(y))
        for i in range(n + 1):
            y.append(cont(d, [i, x]) if i % 2 else x)
        many = ident.members(dumps(y))
    finally:
        if a:
            ident.uninstall()
    mask = ident.members(dumps([cont("masked", [1])]))["npy"] if "masked" in (c, d) else 0
    ctx.check(many["npz"] == one["npz"] and (many["npy"] == one["npy"] or mask), "an array referenced again is stored again")
    ctx.outcome = "once"


def obligations(tier):
    q = tier == "quick"
    obs = []
    for i in range(0, len(CONT), 2):
        obs.append(dict(name="pair-" + CONT[i], fn=pair(CONT[i:i + 2], LEAF, False), time=30 if q else 300,
                        bounds="21 kinds of mutable objects in two of 14 containers (one of them nested), shared or equal"))
    for i in range(0, len(CONT), 4):
        obs.append(dict(name="ids-" + CONT[i], fn=pair(CONT[i:i + 4], LEAF, True), time=30 if q else 300,
                        bounds="the same under an allocator that reuses ids"))
    obs.append(dict(name="dag", fn=dag(["list", "dict", "object", "objarray", "tuple"], 4 if q else 6, False), time=50 if q else 300,
                    bounds="4 (6) containers of 5 kinds, each refers to two of 5 later nodes"))
    obs.append(dict(name="dag-ids", fn=dag(CONT, 3 if q else 4, True), time=50 if q else 300, bounds="3 (4) containers of any kind, reused ids"))
    obs.append(dict(name="once", fn=once, time=40 if q else 200, bounds="8 kinds of arrays, 1..3 further references in any of 14 containers, reused ids"))
    obs.append(dict(name="temporaries", fn=temporaries, time=60 if q else 300, bounds="3..300 objects that make temporaries, up to 7 of them twice"))
    return obs


def prepare():
    arch.prepare()
    estimator([])


prepare_replay = prepare
