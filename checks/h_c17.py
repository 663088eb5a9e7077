"""C17: `skops convert` produces an equivalent, auditable archive."""
import arch
import deep
import fswatch
import h_c08
import h_c18
import hlib
import objs
import pick

INSTRUMENT = ["objs", "objcls", "h_c08", "h_c18"]

ASSUMPTIONS = [
    "dumpable: dumps accepts the object and loads returns an equal one (C04/C05 decide when that has to be so)",
    "objects come from the grammar of C04/C05 and the catalogue of C08; where the value is symbolic the pickle file is a call "
    "that builds the object while it is unpickled, otherwise it is the pickle of the object itself under protocol 0..5",
    "an output path that names the input is not claimed, nor what a failing write leaves behind",
    "warnings are observed at the root logger or, with no handler installed before, on stderr",
]

# (argument, place, name of the default output)
INPUTS = [("model.pkl", "work/model.pkl", "model"), ("sub/model.pkl", "work/sub/model.pkl", "model"), ("../other/a.b.pickle", "other/a.b.pickle", "a.b"),
          ("ABS:other/mo del", "other/mo del", "mo del"), ("./noext", "work/noext", "noext"), ("sub/.hidden", "work/sub/.hidden", ".hidden"),
          ("ABS:work/sub/deep/x.joblib.gz", "work/sub/deep/x.joblib.gz", "x.joblib"), ("../other/%s{}.pkl", "other/%s{}.pkl", "%s{}")]
OUTPUTS = [None, ("out.skops", "work/out.skops"), ("sub/deep/out", "work/sub/deep/out"), ("ABS:other/o.skops", "other/o.skops"), ("../other/o.pkl", "other/o.pkl"),
           ("./sub/../o.skops", "work/o.skops")]
BEFORE = ["none", "old", "empty", "long"]
VERBOSE = [[], ["-v"], ["-vv"], ["--verbose"]]


def cli(args):
    from skops.cli.entrypoint import main_cli
    main_cli(args)


def place(arg, w):
    return w.p(arg[4:]) if arg[:4] == "ABS:" else arg


def changed_elsewhere(a, b, out):
    return sorted(k for k in set(a) | set(b) if k != out and a.get(k) != b.get(k))


place._sx_direct = changed_elsewhere._sx_direct = True


def put(w, name, data):
    with open(w.p(name), "wb") as f:
        f.write(data)


put._sx_direct = True


def run(ctx, data, x, judge, inputs, outputs, befores, verbose):
    src, at, stem = ctx.pick("input", inputs)
    o = ctx.pick("output", outputs)
    dest = "work/" + stem + ".skops" if o is None else o[1]
    v = ctx.pick("verbose", verbose)
    before_kind = ctx.pick("before", befores)
    fresh = True if ctx.bool("fresh logging") else False
    w = fswatch.World(hlib.scratch_dir())
    try:
        put(w, at, data)
        if before_kind != "none":
            put(w, dest, {"old": b"old", "empty": b"", "long": b"x" * 200000}[before_kind])
        args = ["convert", place(src, w), *([] if o is None else ["-o", place(o[0], w)]), *v]
        before = w.snapshot()
        logs = pick.Logs(fresh)
        try:
            exc = w.run(lambda: cli(args))
        finally:
            logs.close_all()
        after = w.snapshot()
        judge(ctx, w, exc, before, after, dest, logs, x)
    finally:
        w.close()


def outcome(f, *a, **k):
    try:
        return "ok", f(*a, **k)
    except Exception as exc:
        return type(exc).__name__, str(exc)


def converted(same):
    def judge(ctx, w, exc, before, after, dest, logs, x):
        from skops.io import dumps, get_untrusted_types, load, loads
        ref = outcome(dumps, x())
        if ref[0] == "ok":
            U = outcome(get_untrusted_types, data=ref[1])
        bad = changed_elsewhere(before, after, dest)
        if ref[0] != "ok" or U[0] != "ok":
            ctx.outcome = "refused"
            ctx.check(exc is not None, "an object that dumps refuses is converted")
            ctx.check(not bad and before.get(dest) == after.get(dest), "files changed although the object cannot be persisted")
            return
        z = outcome(loads, ref[1], trusted=U[1])
        if z[0] != "ok" or same(x(), z[1]) is False:
            ctx.outcome = "not dumpable"        # the subject of C04
            return
        ctx.outcome = "converted"
        ctx.check(exc is None, lambda: f"a dumpable object is not converted: {type(exc).__name__}")
        ctx.check(not bad, "files other than the output changed")
        ctx.check(type(after.get(dest)) is bytes, "there is no output file at the requested or default place")
        path = w.p(dest)
        V = get_untrusted_types(file=path)
        ctx.check(V == U[1], "the archive reports other types than a dump of the object")
        y = outcome(load, path, trusted=V)
        ctx.check(y[0] == "ok", "the archive does not load")
        ctx.check(same(x(), y[1]) is not False, "the archive loads to another object than the pickle")
        msg = logs.warned()
        if V:
            ctx.check(msg is not None, "no warning although there are untrusted types")
            for t in V:
                ctx.check(t in msg, "the warning does not name an untrusted type")
            ctx.outcome = "warned"
        else:
            ctx.check(msg is None, "a warning although there are no untrusted types")
    return judge


def free_same(a, b):
    return objs.same(a, b)


def deep_same(a, b):
    return h_c08._same(a, b, False)


deep_same._sx_direct = True


def call(make, inputs=INPUTS[:1], outputs=OUTPUTS[1:2], befores=BEFORE[:1], verbose=VERBOSE[:1]):
    """The object is built while it is unpickled."""
    def fn(ctx):
        arch.begin()
        x = make(ctx)
        try:
            data = pick.call_pickle(x, 4)
            x()
        except Exception:
            ctx.outcome = "no object"
            return
        run(ctx, data, x, converted(free_same), inputs, outputs, befores, verbose)
    return fn


def real(make, same=free_same, **kw):
    """A pickle of the object itself."""
    opts = dict(inputs=INPUTS[:1], outputs=OUTPUTS[1:2], befores=BEFORE[1:2], verbose=VERBOSE[:1])
    opts.update(kw)

    def fn(ctx):
        arch.begin()
        x = make(ctx)
        if x is None:
            ctx.outcome = "no object"
            return
        data = pick.real_pickle(x(), ctx.choice("pickle protocol", 6))
        if data is None:
            ctx.outcome = "no pickle"
            return
        run(ctx, data, lambda: pick.unpickle(data), converted(same), **opts)
    return fn


def failing(ctx, w, exc, before, after, dest, logs, x):
    ctx.outcome = type(exc).__name__ if exc is not None else "converted"
    if x is None or exc is not None:
        ctx.check(exc is not None, "something that is no pickle is converted")
        ctx.check(before == after, "files were created or altered although the conversion failed")
    else:
        ctx.check(not changed_elsewhere(before, after, dest), "files other than the output changed")


def bads(levels):
    def fn(ctx):
        arch.begin()
        x = h_c18.bad(ctx.choice("bad", h_c18.NBAD))
        for j in range(ctx.choice("levels", levels + 1)):
            x = h_c18.put(ctx.pick(f"spot{j}", h_c18.SPOTS), x)
        run(ctx, pick.call_pickle(lambda: x, 4), lambda: x, failing, INPUTS[:2], OUTPUTS[:3], BEFORE[:2], VERBOSE[:1])
    return fn


def corrupt(ctx):
    arch.begin()
    data = ctx.pick("data", [b"", b"no pickle", b"\x80\x04K", b"cos\nnothing\n.", b"\x80\x04\x95\xff\x00\x00\x00\x00\x00\x00\x00.", b"(lp0\n"])
    run(ctx, data, None, failing, INPUTS, OUTPUTS, BEFORE, VERBOSE[:1])


def catalogue(names):
    def make(ctx):
        nm = ctx.pick("object", names)
        try:
            x = h_c08.dumped(nm)[0]
        except KeyError:
            return None
        return lambda: x
    return make


def paths_object(ctx):
    v = objs.scalar(ctx, "v", False)
    o = ctx.pick("object", ["trusted", "one", "two"])
    if o == "trusted":
        return lambda: [v, 1]
    if o == "one":
        return lambda: [objs.objcls.Plain(a=v)]
    return lambda: {"a": objs.objcls.Plain(a=v), "b": [objs.objcls.function, objs.objcls.Plain]}


def obligations(tier):
    q = tier == "quick"
    obs = []
    for i, o in enumerate(OUTPUTS):
        obs.append(dict(name=f"paths-{i}", fn=call(paths_object, INPUTS, [o], BEFORE[:2] if q else BEFORE, VERBOSE[:2] if q else VERBOSE), time=40 if q else 150,
                        bounds=f"8 input paths, output {o[0] if o else '<cwd>/<stem>.skops'}, present or not, verbosity, no/one/three untrusted types around a symbolic value"))
    for k in objs.CONT + objs.ATOMS:
        obs.append(dict(name="call-" + k, fn=call(lambda ctx, k=k: objs.supported(ctx, "x", 1, [k], free=False)), time=20 if q else 100,
                        bounds=f"{k}: any entry of its tables, containers of 0..2 values; symbolic values"))
    for g in objs.ODD:
        obs.append(dict(name="odd-" + g, fn=call(lambda ctx, g=g: objs.wrap(ctx, "w", objs.anything(ctx, "x", 1, [g]), ["none", "dict"] if q else objs.WRAPS),
                                                 befores=BEFORE[1:2]), time=20 if q else 100,
                        bounds=f"every entry of the {g} table, alone and in a dict (thorough: inside of 11 kinds of objects), output file present"))
        obs.append(dict(name="pickled-" + g, fn=real(lambda ctx, g=g: objs.anything(ctx, "x", 0, [g])), time=20 if q else 100,
                        bounds=f"pickles of every entry of the {g} table under protocol 0..5"))
    obs.append(dict(name="pickled-array", fn=real(lambda ctx: objs.supported(ctx, "x", 1, ["array", "sparse", "masked", "rs", "gen", "dtype"], free=False)), time=20,
                    bounds="pickles of arrays, matrices, generators and dtypes under protocol 0..5"))
    light = [n for n in h_c08.NAMES if n not in h_c08.HEAVY]
    for i, g in enumerate((light[:6], light[6:], list(h_c08.HEAVY))):
        obs.append(dict(name=f"objects-{i}", fn=real(catalogue(g), deep_same), time=30, bounds="pickles of " + ", ".join(g)))
    obs.append(dict(name="bad", fn=bads(1), time=30 if q else 150, bounds="25 unsupported elements at 11 positions, 3 outputs, present or not"))
    obs.append(dict(name="corrupt", fn=corrupt, time=20 if q else 60, bounds="6 files that are no pickles, every input and output path"))
    return obs


def prepare():
    arch.prepare()
    fswatch.install()


prepare_replay = prepare
