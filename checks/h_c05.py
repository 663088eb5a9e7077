"""C05: supported data round-trips exactly, and stably."""
import arch
import numpy as np
import objs

INSTRUMENT = ["objs", "objcls"]

ASSUMPTIONS = [
    "json-stored values (integers of up to 70 bits, booleans, strings of up to 2 characters of any sort, dict keys) are "
    "symbolic; floats, bytes and what native code stores (arrays, bit generators, sparse matrices) come from tables "
    "indexed by symbolic choices",
    "json text is modelled by its value: json.dumps/json.loads are trusted to be inverse of each other on JSON data",
    "numpy string scalars with trailing null characters, nested sub-array dtypes and dtypes holding objects are refused "
    "by dump (numpy cannot store them) and not claimed",
    "sets are compared as sets; index dtypes of sparse matrices are not compared; scipy sparse arrays load when the "
    "reported types are trusted",
]


def cycle(x):
    from skops.io import dumps, get_untrusted_types, loads
    d = dumps(x)
    return loads(d, trusted=get_untrusted_types(data=d))


def attempt(ctx, x, what):
    try:
        return cycle(x)
    except Exception as exc:
        ctx.outcome = "raises"
        m = type(exc).__name__ + ": " + str(exc)[:60]
        ctx.fail(what + " raises " + m)


def roundtrip(make, times):
    def fn(ctx):
        arch.begin()
        mk = make(ctx)
        x = mk()
        y = x
        for i in range(times):
            z = attempt(ctx, y, "a supported value" if i == 0 else "dumping the loaded value again")
            ctx.check(objs.same(x, z), "the loaded value differs" if i == 0 else "a later cycle yields another value")
            ctx.check(flags(x, z), "the memory layout of an array differs")
            y = z
        ctx.check(objs.same(x, mk()), "dumping changes the value")
        for r, s in zip(rngs(x, []), rngs(y, [])):
            ctx.check(objs.draws(r) == objs.draws(s), "the loaded generator continues another stream")
        ctx.outcome = "same"
    return fn


def parts(x, t, out):
    if isinstance(x, t):
        out.append(x)
    elif isinstance(x, dict):
        for v in x.values():
            parts(v, t, out)
    elif isinstance(x, (list, tuple)):
        for v in x:
            parts(v, t, out)
    return out


def rngs(x, out):
    return parts(x, (np.random.RandomState, np.random.Generator), out)


def flags(x, y):
    return all(objs.layouts(a, b) for a, b in zip(parts(x, np.ndarray, []), parts(y, np.ndarray, [])))


parts._sx_direct = rngs._sx_direct = flags._sx_direct = True


def keyed(n):
    """Dicts of any class with n keys, among them keys of the same text."""
    def fn(ctx):
        cl = ctx.pick("class", ["dict", "OrderedDict", "defaultdict"])
        ks = [objs.key(ctx, f"k{i}") for i in range(n)]

        def mk():
            import collections
            d = {"dict": dict, "OrderedDict": collections.OrderedDict, "defaultdict": lambda: collections.defaultdict(list)}[cl]()
            for i, k in enumerate(ks):
                d[k] = i
            return d
        return mk
    return fn


def textual(n, k):
    """Strings everywhere json stores them."""
    def fn(ctx):
        ss = [ctx.str(f"s{i}", objs.WIDE, 0, n) for i in range(k)]
        w = ctx.pick("where", ["list", "dict", "cell", "nested"])
        return {"list": lambda: list(ss), "dict": lambda: {s: i for i, s in enumerate(ss)}, "cell": lambda: objs.objarray((k,), ss),
                "nested": lambda: [{ss[0]: (ss[-1], {"": ss[0]})}]}[w]
    return fn


def deep(kinds, n):
    """n levels of containers around a leaf."""
    def fn(ctx):
        leaf = objs.supported(ctx, "leaf", 0, ["json", "array", "masked", "npscalar"], free=False)
        ks = [ctx.pick(f"w{i}", kinds) for i in range(n)]

        def mk():
            x = leaf()
            for i, k in enumerate(ks):
                x = {"list": lambda: [x], "tuple": lambda: (x, i), "dict": lambda: {"a": x, i: None}, "od": lambda: objs.collections.OrderedDict([(1, x)]),
                     "dd": lambda: objs.collections.defaultdict(list, {i: x, "b": []}), "partial": lambda: objs.functools.partial(dict, x, k=i)}[k]()
            return x
        return mk
    return fn


def obligations(tier):
    q = tier == "quick"
    t = 2 if q else 4
    obs = []
    for k in objs.ATOMS:
        obs.append(dict(name="atom-" + k, fn=roundtrip(lambda ctx, k=k: objs.supported(ctx, "x", 0, [k]), t), time=60 if q else 250,
                        bounds=f"every entry of the {k} tables, {t} cycles"))
    for k in objs.CONT:
        obs.append(dict(name="in-" + k, fn=roundtrip(lambda ctx, k=k: objs.supported(ctx, "x", 1, [k], free=False), t), time=60 if q else 300,
                        bounds=f"{k} of 0..2 values of any other family, {t} cycles"))
    obs.append(dict(name="keys", fn=roundtrip(keyed(2 if q else 3), t), time=60 if q else 300,
                    bounds="dicts of 2 (3) keys: strings of up to 2 characters, integers -2..2, floats, numpy numbers"))
    obs.append(dict(name="text", fn=roundtrip(textual(2 if q else 3, 2), t), time=40 if q else 200,
                    bounds="two strings of up to 2 (3) characters of any sort as values, keys and cells"))
    obs.append(dict(name="deep", fn=roundtrip(deep(["list", "tuple", "dict", "od", "dd", "partial"], 3 if q else 5), t), time=50 if q else 300,
                    bounds="a leaf below 3 (5) containers of any kind"))
    return obs


def prepare():
    arch.prepare()


prepare_replay = prepare
