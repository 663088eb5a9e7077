"""C13: visualize is total and agrees with the audit."""
import builtins
import contextlib
import io
import os
import sys

import arch
from arch import B, CANARY, DEFAULT_NAME, FOREIGN, KINDS, LEAVES
from hlib import scratch_dir

ASSUMPTIONS = [
    "archives are trees of the registered node kinds along a spine of symbolic kinds, slots and names; slots off "
    "the spine hold valid fillers; the totality part uses shapes that dump writes",
    "rows are observed at a custom sink and on the standard output of the default sink, with and without rich",
    "the default sink prints to a console wide enough for its lines; texts have no lone surrogates",
]
ALL = sorted(set(CANARY + FOREIGN + [("numpy", "sqrt"), ("builtins", "list"), ("functools", "partial")]
                 + list(DEFAULT_NAME.values())))
# names that some kind of node trusts by default
FILLERS = sorted(set(DEFAULT_NAME.values()) | {("numpy", "sqrt"), ("numpy", "ndarray")} | {
    ("builtins", c) for c in ["dict", "list", "tuple", "type", "str", "int", "float", "set", "slice", "bytes",
                              "bytearray", "bool", "complex", "frozenset"]})
MIN = [("sxcan_a", "Danger"), ("sxcan_b", "Danger")]


def names_all(k):
    return ALL


def names_min(k):
    return MIN + ([DEFAULT_NAME[k]] if k in DEFAULT_NAME else [])


def collect(nodes, show, **kw):
    rows = []
    for x in nodes:
        rows.append(x)
    LAST[:] = rows


LAST = []


def disj(xs):
    return arch.disj(xs)


def agree(ctx, data, T, modes=("all", "untrusted", "trusted")):
    """The rows for the archive agree with get_untrusted_types under T."""
    from skops.io import get_untrusted_types, visualize
    try:
        U = get_untrusted_types(data=data)
    except Exception:
        U = None
    try:
        visualize(data, trusted=T, sink=collect, show=ctx.pick("show", list(modes)))
    except Exception as exc:
        ctx.outcome = "visualize: " + type(exc).__name__
        return False
    rows = LAST[:]
    ctx.check(len(rows) > 0 and rows[0].level == 0, "the root is not the first row")
    prev = 0
    for r in rows[1:]:
        ctx.check(r.level >= 1 and r.level <= prev + 1, "a row is more than one level deeper than the previous one")
        prev = r.level
    if U is None:
        ctx.outcome = "no verdict"
        return True
    bad = [u for u in U if not disj([u == t for t in (T or [])])]
    ctx.check((True if rows[0].is_safe else False) == (len(bad) == 0),
              "the root is marked fully safe although a type is untrusted, or the reverse")
    # the name of another node may be trusted by default although it is not trusted there
    row_bad = [u for u in bad if not disj([u == m + "." + c for (m, c) in FILLERS])]
    below = []            # (level, contains an untrusted name)
    for r in reversed(rows):
        mine = disj([r.val == u for u in row_bad])
        if mine:
            ctx.check(not r.is_self_safe, "a row that displays an untrusted name is not marked unsafe")
            ctx.check(not r.is_safe, "a row that displays an untrusted name is marked fully safe")
        inner = [b for (lv, b) in below if lv > r.level]
        below = [x for x in below if x[0] <= r.level]
        some = disj([mine] + inner)
        if some:
            ctx.check(not r.is_safe, "a row is marked fully safe although an untrusted name occurs beneath it")
        below.append((r.level, some))
    ctx.outcome = "safe" if len(bad) == 0 else "unsafe"
    return True


def tree(levels, leaves, names, nT, outer=None, modes=("all", "untrusted", "trusted")):
    def fn(ctx):
        arch.begin()
        st, _ = arch.spine(ctx, B(), levels, leaves, names, outer)
        T = arch.trusted(ctx, nT, ALL, lo=0) if nT else None
        agree(ctx, arch.pack(st), T, modes)
    return fn


# -------------------------------------------------------------- what dump writes
def dumped(ctx, b, depth, label="o"):
    """An archive node that dump can write (keys and texts chosen from awkward ones)."""
    k = ctx.pick(label, ["json", "slice", "method", "obj", "noattr", "dict", "list", "partial", "array", "objarray",
                         "opfunc", "type", "func", "bytes", "tree", "loss", "rng", "rng1", "sparse", "masked",
                         "dtype", "defaultdict", "bytearray", "rs", "reduce"] if depth else
                 ["json", "slice", "method", "obj", "noattr", "type"])

    def sub(l):
        return dumped(ctx, b, depth - 1, label + l) if depth else b.js("1")

    if k == "json":
        return b.js(ctx.pick(label + ".text", ['"[red]x[/blue]"', "null", '"[/a]"', '"\\\\"', '"[UNSAFE]"']))
    if k == "slice":
        lo = ctx.pick(label + ".lo", [None, 1])
        return b.node("SliceNode", "builtins", "slice", content={"start": lo, "stop": 2, "step": lo})
    if k == "method":
        return b.node("MethodNode", "sxcan_a", "method", content={
            "func": "run", "obj": b.node("ObjectNode", "sxcan_a", "Danger", content=b.dic({"a": sub("m")}))})
    if k == "obj":
        return b.node("ObjectNode", "sxcan_a", "Danger", content=b.dic({key(ctx, label): sub("v")}))
    if k == "noattr":
        return b.node("ObjectNode", "sxcan_a", "Danger", content=b.js("null")) if ctx.bool(label + ".null") \
            else b.node("ObjectNode", "sxcan_a", "Danger")
    if k == "dict":
        kt = b.node("TypeNode", "sxcan_a", "Danger") if ctx.bool(label + ".kt") else b.typ()
        return b.dic({key(ctx, label): sub("v")}, b.seq([kt]))
    if k == "defaultdict":
        return b.node("DefaultDictNode", "collections", "defaultdict", content={
            "main": b.dic({"k": sub("v")}), "default_factory": b.typ("list")})
    if k == "list":
        return b.seq([sub("0")] + ([sub("1")] if depth > 1 else []))
    if k == "partial":
        return b.node("PartialNode", "functools", "partial", content={
            "func": b.node("FunctionNode", "numpy", "sqrt"), "args": b.tup([sub("a")]), "kwds": b.dic({}),
            "namespace": b.js("null")})
    if k == "objarray":
        return b.node("NdArrayNode", "numpy", "ndarray", type="json", content=[sub("i")], shape=b.tup([b.js("1")]))
    if k == "opfunc":
        return b.node("OperatorFuncNode", "operator", "attrgetter", attrs=b.tup([sub("a")]))
    if k == "reduce":
        return b.node("ConstructorFromReduceNode", "sxcan_a", "Danger", content=b.tup([sub("a")]))
    kind, slot = {"array": ("NdArrayNode", None), "type": ("TypeNode", None), "func": ("FunctionNode", None),
                  "bytes": ("BytesNode", None), "tree": ("TreeNode", "content"), "loss": ("LossNode", "arg"),
                  "rng": ("RandomGeneratorNode", None), "rng1": ("RandomGeneratorNode", "seed_seq"),
                  "sparse": ("SparseMatrixNode", None), "masked": ("MaskedArrayNode", "mask"),
                  "dtype": ("DTypeNode", None), "bytearray": ("BytearrayNode", None),
                  "rs": ("RandomStateNode", None)}[k]
    n = {"BytesNode": ("builtins", "bytes"), "BytearrayNode": ("builtins", "bytearray"),
         "SparseMatrixNode": ("scipy.sparse._csr", "csr_matrix")}.get(kind) or DEFAULT_NAME[kind]
    return arch.make(b, kind, n, slot, sub("c") if slot else None, {"file": arch.DEFAULT_FILE.get(kind)})


def key(ctx, label):
    return ctx.pick(label + ".key", ["key_types", "content", "attrs", "[/x]", "", "[b]", "a\\", "constructor", "func"])


def norich(on):
    for n in ("rich", "rich.console", "rich.tree", "rich.markup"):
        if on:
            HIDDEN[n] = sys.modules.get(n)
            sys.modules[n] = None
        elif n in HIDDEN:
            m = HIDDEN.pop(n)
            if m is None:
                sys.modules.pop(n, None)
            else:
                sys.modules[n] = m


norich._sx_direct = True
HIDDEN = {}


def captured(f):
    """(outcome, text written to the standard output)"""
    out = io.StringIO()
    try:
        with contextlib.redirect_stdout(out):
            f()
        return "ok", out.getvalue()
    except Exception as exc:
        return type(exc).__name__ + ": " + str(exc)[:80], out.getvalue()


captured._sx_direct = True


def levels_of(text):
    """Levels of the printed rows."""
    out = []
    for line in text.split("\n"):
        if not line.strip():
            continue
        n = 0
        while line[n:n + 1] in ("│", " ", "├", "└", "─") and line[n:n + 1]:
            n += 1
        out.append(-(-n // 4))
    return out


levels_of._sx_direct = True


def total(depth, roots=None):
    """visualize completes on what dump writes, for every mode, and the default sink agrees."""
    def fn(ctx):
        arch.begin()
        from skops.io import get_untrusted_types, visualize
        b = B()
        st = dumped(ctx, b, depth) if roots is None else b.seq([dumped(ctx, b, depth)])
        data = arch.pack(st)
        T = ctx.pick("T", [None, ["sxcan_a.Danger"], ["sxcan_a.Danger", "sxcan_a.Danger.run", "functools.partial"]])
        show = ctx.pick("show", ["all", "untrusted", "trusted"])
        kw = ctx.pick("kw", [{}, {"use_colors": False}, {"tag_safe": "[ok]"}]) if show == "all" else {}
        rich = True if ctx.bool("rich") else False
        U = get_untrusted_types(data=data)
        bad = [u for u in U if u not in (T or [])]
        src = data
        if depth == 0 and ctx.bool("file"):
            src = os.path.join(scratch_dir(), "v.skops")
            arch.write(src, data)
        if not rich:
            norich(True)
        try:
            out, text = captured(lambda: visualize(src, trusted=T, show=show, **kw))
        finally:
            norich(False)
        ctx.check(out == "ok", lambda: "visualize fails on an archive that dump writes: " + out)
        lv = levels_of(text)
        ctx.check(len(lv) > 0 and lv[0] == 0, "the printed tree does not start with its root")
        ctx.check(all([y <= x + 1 for x, y in zip(lv, lv[1:])]), "the printed tree skips a level")
        if show != "trusted":
            for u in bad:
                if not u.startswith("builtins."):
                    ctx.check(u in text, "an untrusted name is not printed")
        if show == "all":
            unsafe = [l for l in text.split("\n") if "[UNSAFE]" in l and "json-type" not in l]
            ctx.check((len(unsafe) > 0) == (len(bad) > 0), "the printed tree has no unsafe row though a type is "
                                                           "untrusted, or the reverse")
        ctx.outcome = show
    return fn


def chain(depths):
    def fn(ctx):
        arch.begin()
        b = B()
        d = ctx.pick("depth", depths)
        leaf = arch.make(b, ctx.pick("leaf", ["TypeNode", "ObjectNode", "FunctionNode", "JsonNode"]), ("sxcan_a", "Danger"), None, None, {})
        st = arch.chain(ctx, b, ["ListNode", "DictNode", "TupleNode", "ObjectNode", "PartialNode", "TreeNode", "DTypeNode", "NdArrayNode",
                                 "OperatorFuncNode", "DefaultDictNode", "LossNode", "SetNode"], d, leaf)
        agree(ctx, arch.pack(st), [ctx.enum("T", ("sxcan_a", "sxcan_a.Danger", "functools.partial"))])
    return fn


def wide(kinds, sizes):
    def fn(ctx):
        arch.begin()
        st = arch.wide(ctx, kinds, sizes, MIN)
        agree(ctx, arch.pack(st), [ctx.enum("T", ("sxcan_a", "sxcan_a.Danger", "sxcan_b.Danger"))])
    return fn


def obligations(tier):
    q = tier == "quick"
    leafset = sorted(set(LEAVES + KINDS))
    obs = [dict(name="single", fn=tree([], leafset, names_all, 1), time=60,
                bounds="one node of any kind, any name; no or any one-entry trusted list; every show mode")]
    for k in KINDS:
        obs.append(dict(name="pair-" + k, fn=tree([[k]], leafset, names_min, 1, modes=["all"] if q else ["all", "untrusted", "trusted"]), time=50 if q else 250,
                        bounds=f"{k} root, any node kind in any of its slots; trusted lists of 0..1 names"))
    for k in (["DictNode", "ObjectNode"] if q else KINDS):
        obs.append(dict(name="triple-" + k,
                        fn=tree([["ListNode", "DictNode", "PartialNode", "LossNode", "ObjectNode"] if q else KINDS, [k]],
                                ["TypeNode", "ObjectNode", "PartialNode", "SliceNode", "JsonNode"] if q else leafset,
                                names_min, 1, lambda k: [DEFAULT_NAME.get(k, ("sxcan_b", "Danger"))], ["untrusted"]),
                        time=50 if q else 250, bounds="three levels, default names on the outer ones"))
    obs.append(dict(name="chain", fn=chain([3, 12, 40] if q else list(range(3, 60, 3))), time=50 if q else 250,
                    bounds="chains of 3, 12, 40 (3..57) containers of 12 kinds above an untrusted or harmless node"))
    obs.append(dict(name="wide", fn=wide(arch.Wide.KINDS, [30] if q else [3, 30, 70, 260]), time=50 if q else 250,
                    bounds="containers of 30 (3..260) nodes, one untrusted node at any position and another at the start or end"))
    obs.append(dict(name="total-0", fn=total(0), time=60, bounds="dumped leaf objects; every show mode, with/without "
                                                              "rich and colours, file and bytes, 3 trusted lists"))
    obs.insert(0, dict(name="total-1", fn=total(1), time=60, bounds="dumped objects of 25 shapes containing a leaf; same modes"))
    if not q:
        obs.append(dict(name="total-2", fn=total(2), time=300, bounds="two levels of dumped objects; same modes"))
    return obs


def prepare():
    os.environ["COLUMNS"] = "2000"
    import rich.console, rich.tree, rich.markup  # noqa
    arch.prepare()


def prepare_replay():
    prepare()
