"""C16: `skops update` upgrades old archives without ever endangering the original."""
import errno
import io
import json
import logging
import os
import zipfile

import arch
import deep
import fswatch
import h_c08
import hlib
from arch import B, KINDS

INSTRUMENT = ["h_c08"]

ASSUMPTIONS = [
    "old archives are nodes of every kind and real objects in the layouts of C08; equality is that of loading the input and the output",
    "the state on disk is inspected before every file operation (Python's audit events) and at the end: opening a file for "
    "truncation makes it empty, renaming is atomic, removing makes it missing; death inside of a write leaves any part of that file",
    "two file systems are emulated: renaming and linking between the temporary directory and elsewhere fails with EXDEV",
    "whether -o naming the input itself (without --inplace) overwrites it or fails is left open, it may only not be partial",
    "power failures (fsync), concurrent updates and residue of killed processes are not claimed",
]

INPUTS = ["in.skops", "sub/in.skops", "./in.skops", "../other/in.skops", "ABS:work/in.skops"]
# (argument, place under the root)
OUTPUTS = [("out.skops", "work/out.skops"), ("sub/out.skops", "work/sub/out.skops"), ("sub/deep/out", "work/sub/deep/out"),
           ("./sub/../out.skops", "work/out.skops"), ("../other/o u t.skops", "other/o u t.skops"), ("ABS:other/out.skops", "other/out.skops"),
           ("ABS:work/sub/out.tar.gz", "work/sub/out.tar.gz"), ("ABS:tmp/out.skops", "tmp/out.skops"), ("ABS:work/" + "x" * 250, "work/" + "x" * 250),
           (".out", "work/.out")]
BEFORE = ["none", "old", "empty", "long", "archive", "link"]


def place(arg, w):
    return w.p(arg[4:]) if arg[:4] == "ABS:" else arg


def cli(args):
    """The command line entry point."""
    from skops.cli.entrypoint import main_cli
    main_cli(args)


def schema_of(path):
    with zipfile.ZipFile(path) as z:
        return json.loads(z.read("schema.json"))


def load_path(path):
    from skops.io import get_untrusted_types, load
    return load(path, trusted=get_untrusted_types(file=path))


def quiet():
    logging.disable(logging.CRITICAL)
    lg = logging.getLogger()
    if not lg.handlers:
        lg.addHandler(logging.NullHandler())
    lg.setLevel(logging.WARNING)


quiet._sx_direct = True


def fill(w, before, out, data):
    """What is at the destination before."""
    p = w.p(out)
    if before == "link":
        with open(w.p("other", "target"), "wb") as f:
            f.write(b"target")
        os.symlink(w.p("other", "target"), p)
    elif before != "none":
        with open(p, "wb") as f:
            f.write({"old": b"old content", "empty": b"", "long": b"x" * 300000, "archive": data}[before])


fill._sx_direct = place._sx_direct = True


def changed_elsewhere(a, b, out, skip=()):
    """Names other than out that differ between two snapshots."""
    return sorted(k for k in set(a) | set(b) if k != out and k not in skip and a.get(k) != b.get(k))


changed_elsewhere._sx_direct = True


def scenario(ctx, outs, inputs, flags, verbose):
    """(arguments, place of the input, --inplace, argument and place of the output)"""
    src = ctx.pick("input", inputs)
    at = {"in.skops": "work/in.skops", "sub/in.skops": "work/sub/in.skops", "./in.skops": "work/in.skops",
          "../other/in.skops": "other/in.skops", "ABS:work/in.skops": "work/in.skops"}[src]
    k = ctx.pick("output", outs)
    inplace = ctx.bool("inplace") if flags else k == "none"
    v = ctx.pick("verbose", [[], ["-v"], ["-vv"], ["--verbose", "-v"]]) if verbose else ["-v"]
    if k == "none":
        return src, at, inplace, None, at if inplace else None, v
    if k == "input":
        return src, at, inplace, src, at, v
    if k == "input-abs":
        return src, at, inplace, "ABS:" + at, at, v
    return src, at, inplace, OUTPUTS[k][0], OUTPUTS[k][1], v


def archive(ctx, kinds, newer):
    """bytes of an archive with a symbolic protocol and a symbolic value; the protocol"""
    cur = h_c08.current()
    kind = ctx.pick("kind", kinds)
    p = ctx.int("protocol", 0, cur + newer)
    if kind in h_c08.NAMES:
        obj, data = h_c08.dumped(kind)
        q = int(p)
        if kind in ("generators", "tree") and q == 0:
            return None, None
        return (h_c08.rewrite(data, q)[0] if q <= cur else reprotocol(data, q)), q
    leaf = ctx.enum("leaf", ["0", "-7", "2.5", "\"text\"", "true", "null", "NaN"])
    b = B(10)
    q = p if p <= cur else cur
    if kind == "RandomGeneratorNode" and p == 0:
        return None, None
    return arch.pack(b.seq([h_c08.build(b, kind, q), b.js(leaf)]), p), p


def reprotocol(data, p):
    src = zipfile.ZipFile(io.BytesIO(data))
    buf = io.BytesIO()
    with zipfile.ZipFile(buf, "w") as z:
        for n in src.namelist():
            d = src.read(n)
            if n == "schema.json":
                st = json.loads(d)
                st["protocol"] = p
                d = json.dumps(st)
            z.writestr(n, d)
    return buf.getvalue()


reprotocol._sx_direct = True


def update(kinds, outs, fault_kind="none", inputs=("in.skops",), befores=("old",), flags=False, verbose=False, newer=-1):
    def fn(ctx):
        arch.begin()
        quiet()
        data, p = archive(ctx, kinds, newer)
        if data is None:
            ctx.outcome = "known"
            return
        cur = h_c08.current()
        src, at, inplace, out, dest, v = scenario(ctx, outs, inputs, flags, verbose)
        w = fswatch.World(hlib.scratch_dir())
        try:
            with open(w.p(at), "wb") as f:
                f.write(data)
            if dest is not None and dest != at:
                fill(w, ctx.pick("before", befores), dest, data)
            mounts = ctx.bool("two file systems")
            kind = fault_kind
            fault = limit = None
            if kind in ("error", "interrupt"):
                fault = (kind, ctx.choice("at", 14), ctx.pick("errno", [errno.ENOSPC, errno.EACCES, errno.EROFS]) if kind == "error" else 0)
            elif kind == "full":
                limit = ctx.pick("limit", [0, 1, 100, 700])
            args = ["update", place(src, w)]
            if out is not None:
                args = [*args, ctx.pick("flag", ["-o", "--output-file"]) if verbose else "-o", place(out, w)]
            if inplace:
                args = [*args, "--inplace"]
            args = [*args, *v]
            before = w.snapshot()
            if kind == "die":
                k = ctx.choice("at", 14)
                died = w.dies(lambda: cli(args), k, mounts)
                ctx.outcome = "died" if died else "ended"
                killed(ctx, w, before, died, p < cur and (out is None) == inplace and (out is not None or inplace), dest, at)
                return
            x = dumpable(w.p(at))
            exc = w.run(lambda: cli(args), w.p(dest) if dest is not None else None, mounts, fault, limit)
            after = w.snapshot()
            judge(ctx, w, before, after, exc, x, p, cur, inplace, out, dest, at, kind)
        finally:
            w.close()
    return fn


def load_result(path):
    return h_c08.outcome(load_path, path)


def dumpable(path):
    """What the archive loads to; not ok if that cannot be dumped."""
    from skops.io import dumps
    x = load_result(path)
    if x[0] == "ok":
        d = h_c08.outcome(dumps, x[1])
        if d[0] != "ok":
            return "not dumpable", d[1]
    return x


def killed(ctx, w, before, died, updates, dest, at):
    after = w.snapshot()
    msg = "" if dest == at else "the input changed" if before.get(at) != after.get(at) else ""
    ctx.check(not msg, msg)
    if dest is None or not updates:
        ctx.check(not changed_elsewhere(before, after, None), "a process that had nothing to update changed files")
        return
    new = after.get(dest)
    if new == before.get(dest):
        ctx.check(died, "an old archive is not written to the destination")
        return
    ctx.check(type(new) is bytes, "after the process died the destination is neither its old content nor the new archive")
    r = load_result(w.p(dest))
    ctx.check(r[0] == "ok", "after the process died the destination is a partial file")


def judge(ctx, w, before, after, exc, x, p, cur, inplace, out, dest, at, kind):
    same_file = out is not None and dest == at
    both = inplace and out is not None
    ctx.outcome = type(exc).__name__ if exc is not None else "done"
    seen = w.seen
    if both or p >= cur or dest is None:
        if both:
            ctx.check(exc is not None and not (type(exc) is SystemExit and not exc.code), "-o together with --inplace is no error")
        ctx.check(not changed_elsewhere(before, after, None), "files changed although there is nothing to update")
        ctx.check(len(seen) <= 1, "the destination was touched although there is nothing to update")
        return
    others = changed_elsewhere(before, after, dest)
    if at in others:
        ctx.fail("the input changed")
    if x[0] != "ok" and exc is not None:
        ctx.check(not others and before.get(dest) == after.get(dest), "files changed although the object cannot be dumped")
        return
    if kind == "none" or exc is None:
        if same_file and exc is not None:
            ctx.check(before == after, "files changed although the update failed")
            return
        ctx.check(exc is None, lambda: f"an archive of an older protocol is not updated: {type(exc).__name__} {exc}")
        ctx.check(not others, lambda: "files other than the destination changed or remain")
        r = load_result(w.p(dest))
        ctx.check(x[0] != "ok" or r[0] == "ok", "the updated archive does not load")
        if x[0] == "ok":
            ctx.check(h_c08._same(x[1], r[1], True) is not False, "the updated archive loads to another object")
        ctx.check(schema_of(w.p(dest))["protocol"] == cur, "the updated archive has another protocol than the current one")
        allowed = [seen[0], after[dest]]
    else:
        ctx.check(not others, "files remain or changed after a failed update")
        if after.get(dest) != before.get(dest):
            r = load_result(w.p(dest))
            ctx.check(r[0] == "ok", "after a failed update the destination is partial")
            allowed = [seen[0], after[dest]]
        else:
            allowed = [seen[0]]
    ctx.check(w_ok(seen, allowed), "a process that dies during the update leaves neither the old content nor the new archive at the destination")


def w_ok(seen, allowed):
    return all([any([s == a for a in allowed]) for s in seen])


w_ok._sx_direct = True


def obligations(tier):
    q = tier == "quick"
    outs = ["none", "input", "input-abs", *range(len(OUTPUTS))]
    obs = []
    two = "one or two file systems"
    for o in outs:
        obs.append(dict(name=f"to-{o}", fn=update(["ListNode"], [o], inputs=INPUTS, flags=True, newer=1), time=30 if q else 100,
                        bounds=f"protocol 0..current+1, 5 input paths, output {o if isinstance(o, str) else OUTPUTS[o][0][:40]}, --inplace or not, {two}"))
    obs.append(dict(name="before", fn=update(["ListNode", "NdArrayNode"], ["none", "input", 0, 1, 2, 5, 7], befores=BEFORE), time=30 if q else 100,
                    bounds=f"6 previous contents of 6 destinations, {two}, protocol below the current one"))
    obs.append(dict(name="options", fn=update(["ListNode"], ["none", 0, 5], flags=True, verbose=True, newer=1), time=30 if q else 100,
                    bounds="protocol 0..current+1, 4 ways of verbosity, both output options, --inplace or not"))
    for i in range(0, len(h_c08.NEVER), 6):
        ks = h_c08.NEVER[i:i + 6]
        obs.append(dict(name=f"kinds-{i}", fn=update(ks, ["none", 1], newer=1), time=30 if q else 100,
                        bounds="nodes of the kinds " + ", ".join(ks) + " next to a symbolic value, protocol 0..current+1, to the input or a file"))
    light = [n for n in h_c08.NAMES if n not in h_c08.HEAVY]
    for i, g in enumerate((light[:6], light[6:], list(h_c08.HEAVY))):
        obs.append(dict(name=f"objects-{i}", fn=update(g, ["none", 1] if q else ["none", 1, 5]), time=40 if q else 200, bounds="objects of C08: " + ", ".join(g)))
    for f in ("error", "interrupt", "full", "die"):
        obs.append(dict(name="fault-" + f, fn=update(["ListNode"] if q else ["ListNode", "NdArrayNode"], ["none", 1, 5, 7], f, befores=["old", "none"] if q else BEFORE),
                        time=40 if q else 200,
                        bounds={"error": "an OSError from any one of the first 14 file operations", "interrupt": "KeyboardInterrupt at any one of them",
                                "full": "a write error after 0, 1, 100 or 700 bytes of a file", "die": "a child process that ends at any one of them"}[f]))
    return obs


def prepare():
    arch.prepare()
    fswatch.install()


prepare_replay = prepare
