"""C12: archives are well-formed and independent of sink and compression."""
import io
import os
import pathlib
import tempfile
import zipfile

import arch
import hlib
import numpy as np
import objs
import zipcheck

INSTRUMENT = ["objs", "objcls", "zipcheck"]

ASSUMPTIONS = [
    "objects come from the grammar of C04/C05; what a failing dump leaves behind is the subject of C18",
    "json text is modelled by its value: json.dumps/json.loads are trusted to be inverse of each other on JSON data and "
    "to write valid JSON for finite numbers",
    "names that hold lone surrogates, and duplicates of zip members beyond zipfile's own naming, are not modelled",
]


def env():
    import skops
    from skops.io._audit import NODE_TYPE_MAPPING
    from skops.io._protocol import PROTOCOL
    return PROTOCOL, skops.__version__, NODE_TYPE_MAPPING


env._sx_direct = True


def wellformed(make):
    def fn(ctx):
        from skops.io import dumps
        arch.begin()
        x = make(ctx)
        try:
            x = x()
            data = dumps(x)
        except Exception:
            ctx.outcome = "refused"
            return
        ctx.check(type(data) is bytes, "dumps does not return bytes")
        zipcheck.Walk(ctx, data).wellformed(*env())
        ctx.outcome = "well-formed"
    return fn


def user_keys(ctx):
    """Dicts whose keys look like those of the schema."""
    k = ctx.enum("k", ["__loader__", "__class__", "__module__", "__id__", "file", "content", "protocol", "type", "_skops_version", "main"])
    k2 = ctx.pick("k2", ["__id__", "protocol", "a"])
    v = objs.scalar(ctx, "v", False)
    o = ctx.pick("o", ["dict", "attrs", "dd"])
    a = np.arange(3)
    if o == "dict":
        return lambda: {k: a, k2: v}
    if o == "dd":
        return lambda: objs.put(objs.collections.defaultdict(list), [k, k2], [lambda: v, lambda: a])
    return lambda: objs.objcls.Plain(**{str(k): v}, other=a)


def shared(ctx):
    """The same array, bytes or matrix at several places, and equal ones."""
    mk = [lambda: np.arange(3.0), lambda: b"abc", lambda: bytearray(b"a"), lambda: objs.sparse("csr", False, 0),
          lambda: np.array([1, None], dtype=object), lambda: np.ma.array([1, 2]), lambda: np.float64(2), lambda: "text"][ctx.choice("k", 8)]
    where = [ctx.choice(f"w{i}", 3) for i in range(3)]
    x = [mk(), mk(), mk()]
    y = [x[i] for i in where]
    return lambda: {"a": y[0], "b": [y[1], (y[2],)]}


def fixtures():
    """Objects with members of every kind."""
    from sklearn.linear_model import LogisticRegression
    from sklearn.tree import DecisionTreeClassifier
    X, y = np.random.RandomState(0).rand(8, 2), np.arange(8) % 2
    out = [{"a": np.arange(4.0), "b": [b"xyz", bytearray(b"q")], "s": objs.sparse("csr", False, 0)},
           DecisionTreeClassifier(random_state=0).fit(X, y), LogisticRegression(random_state=np.random.RandomState(1)).fit(X, y),
           [np.random.default_rng(1), np.ma.array([1, 2], mask=[0, 1]), np.float32(2), np.dtype("i4"), slice(1, 2), {1, 2}],
           np.zeros(5000), [np.array([[1, None], ["a", 2.5]], dtype=object), {"k" * 300: 1, 2: (1, None)}], 7, [b"\x00" * 3000, b""],
           objs.sparse("coo", True, 0)]
    return out


fixtures._sx_direct = True
_fix = []


def fixture(i):
    if not _fix:
        _fix.extend(fixtures())
    return _fix[i]


fixture._sx_direct = True


class OnlyWrite:
    """The least that a binary file object has."""
    def __init__(self):
        self.data = b""

    def write(self, b):
        self.data += bytes(b)
        return len(b)


def sink(kind, before, write):
    """Calls write(destination) and returns the bytes it received; checks what was there."""
    d = tempfile.mkdtemp(prefix="c12_", dir=hlib.scratch_dir())
    p = os.path.join(d, "x" * 50 + ".skops" if before == "long" else "a b.skops")
    if before != "no":
        with open(p, "wb") as f:
            f.write(b"old" * (200000 if before == "long" else 1))
    if kind in ("str", "Path", "relative"):
        if kind == "relative":
            old = os.getcwd()
            os.chdir(d)
            try:
                write(os.path.basename(p))
            finally:
                os.chdir(old)
        else:
            write(p if kind == "str" else pathlib.Path(p))
        return read(p)
    if kind == "only write":
        f = OnlyWrite()
        write(f)
        return f.data
    if kind == "BytesIO":
        f = io.BytesIO()
        write(f)
        return f.getvalue() if not f.closed else None
    if kind == "after":        # an open file goes on from its position
        f = io.BytesIO(b"12345" + b"z" * 10)
        f.seek(5)
        write(f)
        v = f.getvalue()
        return v[5:f.tell()] if v[:5] == b"12345" else None
    if kind in ("open", "raw", "r+b"):
        if kind == "r+b":
            with open(p, "wb"):
                pass
        with open(p, "r+b" if kind == "r+b" else "wb", buffering=0 if kind == "raw" else -1) as f:
            write(f)
            if f.closed:
                return None
        return read(p)
    with tempfile.SpooledTemporaryFile(100) as f:
        write(f)
        f.seek(0)
        return f.read()


def read(p):
    with open(p, "rb") as f:
        return f.read()


sink._sx_direct = read._sx_direct = True

KINDS = ["str", "Path", "relative", "BytesIO", "after", "open", "raw", "r+b", "only write", "spooled"]


def sinks(nfix, kinds, json_leaf=False):
    def fn(ctx):
        from skops.io import dump, dumps, get_untrusted_types, loads
        arch.begin()
        i = ctx.choice("object", nfix)
        v = objs.scalar(ctx, "v", False) if json_leaf else 1
        x = [fixture(i), v] if json_leaf else fixture(i)
        kind = ctx.pick("sink", kinds)
        before = ctx.pick("before", ["no", "short", "long"])
        comp, level = ctx.pick("compression", [(zipfile.ZIP_STORED, [None, 3]), (zipfile.ZIP_DEFLATED, [None, -1, 0, 1, 9]),
                                               (zipfile.ZIP_BZIP2, [None, 1, 9]), (zipfile.ZIP_LZMA, [None, 5])])
        lv = ctx.pick(f"level{comp}", level)
        ref = dumps(x)
        if kind == "dumps":
            data = dumps(x, compression=comp, compresslevel=lv)
        else:
            data = run_sink(kind, before, x, comp, lv)
        ctx.check(data is not None, "the file object was closed or written at another position")
        zipcheck.Walk(ctx, data).wellformed(*env())
        ctx.check(zipcheck.same_archives(ref, data, ctx), "the archive depends on the sink or the compression")
        y = loads(data, trusted=get_untrusted_types(data=data))
        ctx.check(objs.same(x, y), "the archive loads to another object")
        ctx.outcome = "same"
    return fn


def run_sink(kind, before, x, comp, lv):
    from skops.io import dump

    def write(f):
        dump(x, f, compression=comp, compresslevel=lv)
    return sink(kind, before, write)


def nonfinite(ctx):
    """Slices are stored without a text of their own."""
    b = ctx.pick("b", [float("nan"), float("inf"), -float("inf"), 1.5])
    return lambda: [slice(b, None)]


def obligations(tier):
    q = tier == "quick"
    obs = []
    for k in objs.CONT + objs.ATOMS:
        obs.append(dict(name="wf-" + k, fn=wellformed(lambda ctx, k=k: objs.supported(ctx, "x", 1, [k], free=False)), time=20 if q else 200,
                        bounds=f"{k}: any entry of its tables, containers of 0..2 values"))
    for g in objs.ODD:
        obs.append(dict(name="wf-odd-" + g, fn=wellformed(lambda ctx, g=g: objs.wrap(ctx, "w", objs.anything(ctx, "x", 1, [g]))), time=20 if q else 200,
                        bounds=f"every entry of the {g} table inside of 11 kinds of objects"))
    obs.append(dict(name="wf-keys", fn=wellformed(user_keys), time=20, bounds="dict keys and attributes with names of schema fields"))
    obs.append(dict(name="wf-shared", fn=wellformed(shared), time=30, bounds="8 kinds of values at three places, shared in any way"))
    obs.append(dict(name="wf-nonfinite", fn=wellformed(nonfinite), time=10, bounds="slices with non-finite bounds"))
    for k in ["dumps", *KINDS]:
        obs.append(dict(name="sink-" + k.replace(" ", "-"), fn=sinks(9, [k]), time=40 if q else 150,
                        bounds="9 objects with members of every kind, 12 compressions and levels, 3 previous contents"))
    obs.append(dict(name="sink-leaf", fn=sinks(2, ["str", "BytesIO"] if q else KINDS, True), time=40 if q else 200, bounds="objects next to a symbolic json value"))
    return obs


def prepare():
    arch.prepare()
    fixture(0)


prepare_replay = prepare
