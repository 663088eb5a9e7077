"""C18: a failed dump leaves the destination untouched."""
import io
import os
import pathlib
import tempfile

import arch
import hlib
import numpy as np
import objcls
import objs
import watch18

INSTRUMENT = ["objs", "objcls"]

ASSUMPTIONS = [
    "the unsupported element is one of 25: objects whose __getstate__, __reduce__ or attribute access raise (exceptions, "
    "KeyboardInterrupt, SystemExit and MemoryError among them), unsupported types, formats and names, unhashable keys, cyclic objects",
    "it sits at a symbolic position of up to 2 (3) levels of containers, each with members before and after it that are "
    "written to the archive",
    "destinations: an existing file (also empty, read-only, a symbolic link), a new path, a new path in a missing "
    "directory, open file objects of several kinds",
]


def lock():
    import threading
    return threading.Lock()


def bads():
    import scipy.sparse as sp
    from sklearn.cluster import Birch
    cyc = []
    cyc.append(cyc)
    loc = type("Local", (), {"__reduce__": lambda self: "x"})
    return [objcls.RaisingState(), objcls.RaisingReduce(), objcls.Interrupted(KeyboardInterrupt), objcls.Interrupted(SystemExit),
            objcls.Interrupted(MemoryError), objcls.Interrupted(RecursionError), objcls.Interrupted(ImportError), objcls.Interrupted(AttributeError),
            objcls.Interrupted(UnicodeEncodeError), lock(), (i for i in ()), sp.eye(2).tolil(), sp.eye(2).todok(), Birch(), cyc,
            memoryview(b"a"), objcls.BadKeys(), {(1, 2): 3}, open.__code__ if hasattr(open, "__code__") else objcls.function.__code__,
            np.array([objcls.RaisingState(), 1], dtype=object), objcls.MTuple((1,)), objcls.SlotsRaising(), loc(), frozenset([1]), iter([])]


NBAD = 25
bads._sx_direct = lock._sx_direct = True


def bad(i):
    return bads()[i]


bad._sx_direct = True

SPOTS = ["list", "dict", "tuple", "object", "objarray", "partial", "defaultdict", "method", "estimator", "default", "attr of array"]


def put(spot, x):
    """x inside of something that writes members before and after it."""
    a, b = np.arange(3.0), b"bytes"
    if spot == "list":
        return [a, x, b]
    if spot == "dict":
        return {"a": a, "x": x, 3: b}
    if spot == "tuple":
        return (b, x, a)
    if spot == "object":
        return objcls.Plain(a=a, x=x, z=b)
    if spot == "objarray":
        return objs.objarray((2, 2), [a, x, None, b])
    if spot == "partial":
        return objs.functools.partial(objcls.function, a, x, k=b)
    if spot == "defaultdict":
        return objs.put(objs.collections.defaultdict(list), ["a", "x", "b"], [lambda: a, lambda: x, lambda: b])
    if spot == "method":
        return [a, objcls.Plain(x=x, a=a).run, b]
    if spot == "default":
        return [objs.functools.partial(objcls.function, a), {"k": {"l": [x]}}]
    if spot == "attr of array":
        return [objcls.Plain(m=np.ma.array(objs.objarray((2,), [x, a]), mask=[0, 1]))]
    return estimator(a, x)


def estimator(a, x):
    from sklearn.linear_model import LogisticRegression
    e = LogisticRegression(C=2.0)
    e.coef_ = a
    e.random_state = x
    e.zcoef_ = a + 1
    return e


put._sx_direct = estimator._sx_direct = True

KINDS = ["existing", "empty", "long", "readonly", "symlink", "new", "missing-dir", "BytesIO", "BytesIO-mid", "file", "raw", "append", "only-write", "dumps"]


def fails(f):
    try:
        f()
    except BaseException as exc:
        if type(exc).__module__.startswith("symx"):
            raise
        return True
    return False


def run(levels, kinds):
    def fn(ctx):
        from skops.io import dump, dumps
        arch.begin()
        i = ctx.choice("bad", NBAD)
        x = bad(i)
        n = ctx.choice("levels", levels) + 1
        for j in range(n):
            x = put(ctx.pick(f"spot{j}", SPOTS), x)
        kind = ctx.pick("sink", kinds)
        as_path = ctx.bool("Path")
        comp = ctx.pick("compression", [0, 8])
        w = watch18.Destination(kind, pathlib.Path if as_path else str, hlib.scratch_dir())
        try:
            if kind == "dumps":
                failed = fails(lambda: dumps(x, compression=comp))
            else:
                failed = fails(lambda: dump(x, w.target, compression=comp))
            msg = w.changed() if failed else ""
        finally:
            w.close()
        ctx.check(failed or i >= 10, "the dump of an object whose state cannot be taken succeeds")
        ctx.check(failed or kind == "dumps" or not fails(lambda: dumps(x, compression=comp)), "dump writes what dumps refuses")
        ctx.check(not msg, "after a failed dump " + (msg or ""))
        ctx.outcome = "failed" if failed else "dumped"
    return fn


def obligations(tier):
    q = tier == "quick"
    return [dict(name="fail-" + k, fn=run(2 if q else 3, [k]), time=25 if q else 250,
                 bounds="25 unsupported elements, 11 positions on each of 1..2 (3) levels, sink: " + k) for k in KINDS]


def prepare():
    arch.prepare()


prepare_replay = prepare
