"""C03: the audit verdict is exact and load enforces exactly that verdict."""
import collections
import functools
import os
from pathlib import Path

import arch
import deep
import numpy as np
from arch import B, CANARY, DEFAULT_NAME, FOREIGN, KINDS, LEAVES
from hlib import scratch_dir

ASSUMPTIONS = [
    "archives are trees of the registered node kinds along a spine of symbolic kinds, slots and names (depth 2, "
    "plus lists of two independent nodes); slots off the spine hold valid fillers",
    "archives for which get_untrusted_types itself raises (missing members, unknown ids) carry no verdict",
    "names missing from T are read off the exception message as quoted names",
]
ALL = sorted(set(CANARY + FOREIGN + [("numpy", "sqrt"), ("builtins", "list")] + list(DEFAULT_NAME.values())))
MIN = [("sxcan_a", "Danger"), ("sxcan_b", "Danger")]


def names_all(k):
    return ALL


def names_min(k):
    return MIN + ([DEFAULT_NAME[k]] if k in DEFAULT_NAME else [])


def outcome(f, *a, **k):
    from skops.io.exceptions import UntrustedTypesFoundException
    try:
        return "ok", f(*a, **k)
    except UntrustedTypesFoundException as exc:
        return "untrusted", str(exc)
    except Exception as exc:
        return type(exc).__name__, None


def listed(x, T):
    return arch.disj([x == t for t in T])


def tnames(T):
    """Names of the entries of T (type objects by module and name)."""
    return [t if isinstance(t, str) else t.__module__ + "." + t.__name__ for t in T]


def judge(ctx, res, U, T, what):
    """res: outcome of a load under T; U: get_untrusted_types"""
    kind, val = res
    names = tnames(T)
    missing = [u for u in U if not listed(u, names)]
    if missing:
        ctx.check(kind == "untrusted", lambda: what + " is not refused though a reported name is missing from T: "
                  + kind)
        for u in missing:
            ctx.check(("'" + u + "'") in val, what + ": the exception does not name a missing type")
        for u in U:
            if not listed(u, missing):
                ctx.check(("'" + u + "'") not in val, what + ": the exception names a type that is not missing")
        ctx.check(val.count("'") == 2 * len(missing), what + ": the exception names something else")
    else:
        ctx.check(kind != "untrusted", what + " is refused though every reported name is in T")


def run(ctx, data, T, mode):
    from skops.io import get_untrusted_types, load, loads
    k, U = outcome(get_untrusted_types, data=data)
    if k != "ok":
        ctx.outcome = "no verdict: " + k
        return
    ctx.check(all([a < b for a, b in zip(U, U[1:])]), "get_untrusted_types is not sorted and duplicate-free")
    arch.canaries.reset()
    if "file" in mode:
        path = os.path.join(scratch_dir(), "v.skops")
        arch.write(path, data)
        p = Path(path) if ctx.bool("Path") else path
        k2, U2 = outcome(get_untrusted_types, file=p)
        ctx.check(k2 == "ok" and same_list(U, U2), "get_untrusted_types differs between data= and file=")
        res = outcome(load, p, trusted=T)
        judge(ctx, res, U, T or [], "load")
        ctx.outcome = res[0]
        return
    res = outcome(loads, data, trusted=T)
    judge(ctx, res, U, T or [], "loads")
    ctx.outcome = res[0]
    if "again" in mode:
        k3, U3 = outcome(get_untrusted_types, data=data)
        ctx.check(k3 == "ok" and same_list(U, U3), "get_untrusted_types differs after a load")
        # order, duplicates and container of T make no difference
        T2 = tuple(list(T or [])[::-1] + list(T or []))
        res2 = outcome(loads, data, trusted=T2)
        ctx.check(res2[0] == res[0], "order, duplicates or type of the container of T change the outcome")
    if "more" in mode and res[0] == "ok":
        extra = ctx.enum("X", ("zzz", "sxcan_b.danger", "sxcan_a.Danger", "builtins.list", "numpy.ndarray"))
        res3 = outcome(loads, data, trusted=list(T or []) + [extra])
        ctx.check(res3[0] == "ok", "enlarging T makes loading fail")
        if deep.same(res[1], res3[1]) is False and deep.same(res[1], outcome(loads, data, trusted=T)[1]):
            ctx.fail("enlarging T changes the loaded result")


def same_list(a, b):
    return len(a) == len(b) and all([x == y for x, y in zip(a, b)])


def tree(levels, leaves, names, mode, nT=2):
    def fn(ctx):
        arch.begin()
        st, _ = arch.spine(ctx, B(), levels, leaves, names)
        T = arch.trusted(ctx, nT, ALL, lo=nT)
        if mode and ctx.bool("tuple"):
            T = tuple(T)
        run(ctx, arch.pack(st), T, mode)
    return fn


TWO = ["TypeNode", "FunctionNode", "ObjectNode", "MethodNode", "OperatorFuncNode", "DictNode", "PartialNode",
       "DefaultDictNode", "LossNode", "SliceNode", "JsonNode", "DTypeNode", "TreeNode", "NdArrayNode",
       "RandomStateNode", "MaskedArrayNode", "SparseMatrixNode", "BytesNode"]


def two(kinds, mode, extra=()):
    """[A, B] with independent names; T a list of strings and type objects."""
    def fn(ctx):
        arch.begin()
        b = B()
        nodes = []
        for j in range(2):
            k = ctx.pick(f"k{j}", kinds[j])
            n = arch.name(ctx, f"n{j}", names_min(k) + list(extra))
            nodes.append(arch.make(b, k, n, None, None, {"func": "run"}))
        n = ctx.choice("nT", 3)
        T = []
        for j in range(n):
            o = ctx.pick(f"T{j}", ["str", "Danger", "partial", "ndarray", "OrderedDict", "defaultdict"])
            if o == "str":
                T.append(ctx.enum(f"S{j}", ("sxcan_a.Danger", "sxcan_b.Danger", "sxcan_a.Danger.run",
                                            "functools.partial", "collections.OrderedDict", "zzz")))
            else:
                import sxcan_a
                T.append({"Danger": sxcan_a.Danger, "partial": functools.partial, "ndarray": np.ndarray,
                          "OrderedDict": collections.OrderedDict, "defaultdict": collections.defaultdict}[o])
        run(ctx, arch.pack(b.seq(nodes)), T if n else ctx.pick("none", [None, [], ()]), mode)
    return fn


def strings(kind, n):
    def fn(ctx):
        arch.begin()
        m = ctx.str("m", "ab.", 1, n)
        c = ctx.str("c", "aB", 1, n)
        st = arch.make(B(), kind, (m, c), None, None, {"func": "r"})
        T = [ctx.str("t", "abB. *", 1, 2 * n + 1)]
        run(ctx, arch.pack(st), T, "")
    return fn


def boolean(kinds):
    def fn(ctx):
        from skops.io import load, loads
        arch.begin()
        k = ctx.pick("k", kinds)
        st = arch.make(B(), k, arch.name(ctx, "n", names_min(k)), None, None, {"func": "run"})
        data = arch.pack(st)
        res = outcome(loads, data, trusted=True)
        ctx.check(res[0] == "TypeError", "loads accepts trusted=True")
        path = os.path.join(scratch_dir(), "v.skops")
        arch.write(path, data)
        res = outcome(load, path, trusted=True)
        ctx.check(res[0] == "TypeError", "load accepts trusted=True")
        ctx.check(not arch.canaries.ledger(), "trusted=True runs code of the archive")
        ctx.outcome = "rejected"
    return fn


CHAIN = ["ListNode", "DictNode", "TupleNode", "ObjectNode", "PartialNode", "TreeNode", "DTypeNode",
         "NdArrayNode", "OperatorFuncNode"]


def wide(kinds, sizes):
    def fn(ctx):
        arch.begin()
        st = arch.wide(ctx, kinds, sizes, MIN)
        T = [ctx.enum("T", ("sxcan_a", "sxcan_a.Danger", "sxcan_b.Danger", "zzz"))]
        run(ctx, arch.pack(st), T, "")
    return fn


def chain(kinds, depths):
    def fn(ctx):
        arch.begin()
        b = B()
        d = ctx.pick("depth", depths)
        leaf = arch.make(b, ctx.pick("leaf", ["TypeNode", "ObjectNode", "FunctionNode"]), ("sxcan_a", "Danger"), None, None, {})
        st = arch.chain(ctx, b, kinds, d, leaf)
        T = [ctx.enum("T", ("sxcan_a", "sxcan_a.Danger", "sxcan_b.Danger", "functools.partial"))]
        run(ctx, arch.pack(st), T, "")
    return fn


def free(kinds, d, lo, hi):
    def fn(ctx):
        arch.begin()
        n = ctx.pick("n", arch.ODD[lo:hi])
        st = arch.make(B(), ctx.pick("k", kinds), n, None, None, {})
        T = [arch.free_name(ctx, "t", n, d)]
        if ctx.bool("nested"):
            st = B(20).seq([st])
        run(ctx, arch.pack(st), T, "")
    return fn


def many(sizes):
    """n nodes of different names; T names some of them, in any order, several times."""
    def fn(ctx):
        arch.begin()
        b = B()
        n = ctx.pick("n", sizes)
        k = ctx.pick("k", ["TypeNode", "FunctionNode", "ObjectNode", "mixed"])
        style = ctx.pick("style", ["numbered", "modules", "long", "nested", "alike"])
        name = {"numbered": lambda i: ("zzmod", f"T{i}"), "modules": lambda i: (f"zz{i}.m", "T"), "long": lambda i: ("zz" * 60, "T" * 80 + str(i)),
                "nested": lambda i: ("zz" + "._a" * (i % 7), f"T{i // 7}.b"), "alike": lambda i: ("zz" + "_" * (i % 9), "T" + "_" * (i // 9))}[style]
        ks = [k if k != "mixed" else ["TypeNode", "FunctionNode", "ObjectNode"][i % 3] for i in range(n)]
        nodes = [arch.make(b, ks[i], name(i), None, None, {}) for i in range(n)]
        lo, hi, gap = 0, n, n
        if not ctx.bool("all"):
            lo = ctx.choice("from", n + 1)
            hi = ctx.choice("to", n + 1)
        if ctx.bool("hole"):
            gap = ctx.choice("gap", n)
        T = [".".join(name(i)) for i in range(n) if lo <= i < hi and i != gap]
        w = ctx.pick("as", ["list", "tuple", "reversed", "twice", "more"])
        T = {"list": lambda: T, "tuple": lambda: tuple(T), "reversed": lambda: T[::-1], "twice": lambda: T + T,
             "more": lambda: T + ["other.%d" % i for i in range(n)]}[w]()
        st = b.seq(nodes)
        if ctx.bool("as dict"):
            st = b.dic({str(i): x for i, x in enumerate(nodes)})
        run(ctx, arch.pack(st), T, "")
    return fn


def obligations(tier):
    q = tier == "quick"
    leafset = sorted(set(LEAVES + KINDS))
    t2 = "any 2-entry list or tuple of names and misleading variants"
    obs = [dict(name="single", fn=tree([], leafset, names_all, "again more"), time=60,
                bounds="one node of any kind, any name of the table; " + t2),
           dict(name="single-file", fn=tree([], leafset, names_min if q else names_all, "file"), time=60,
                bounds="one node of any kind, any name of the table, load/get_untrusted_types from str and Path; " + t2),
           dict(name="boolean", fn=boolean(leafset), time=30, bounds="trusted=True, any node kind")]
    for k in KINDS:
        obs.append(dict(name="pair-" + k, fn=tree([[k]], leafset, names_min, "" if q else "again more"),
                        time=45 if q else 250, bounds=f"{k} root, any node kind in any of its slots; " + t2))
    for i in range(0, len(arch.ODD), 3):
        obs.append(dict(name=f"free-{i}", fn=free(["TypeNode", "FunctionNode", "ObjectNode"], 2 if q else 5, i, i + 3),
                        time=40 if q else 200,
                        bounds="private, numbered and nested names; T any string of printable characters about as long as the name"))
    obs.append(dict(name="many", fn=many([2, 3, 11, 33, 120] if q else list(range(2, 30)) + [50, 101, 140, 300]), time=40 if q else 250,
                    bounds="2..120 (300) nodes of different names; T any range of them but one, repeated, reordered or with others"))
    W = arch.Wide.KINDS
    for i in range(0, len(W), 5):
        obs.append(dict(name=f"wide-{i}", fn=wide(W[i:i + 5], [40] if q else [3, 40, 70, 260]), time=40 if q else 250,
                        bounds="containers of 40 (3..260) nodes, one untrusted node at any position and another at the start or end"))
    obs.append(dict(name="chain", fn=chain(CHAIN, [3, 12, 40] if q else list(range(3, 70, 3))), time=40 if q else 250,
                    bounds="chains of 3, 12, 40 (3..69) containers of one kind above an untrusted node"))
    groups = [TWO[:4], TWO[4:8], TWO[8:12], TWO[12:]]
    for i, g in enumerate(groups):
        obs.append(dict(name=f"two-{g[0]}", fn=two((g, ["TypeNode", "ObjectNode"] if q else TWO), "again",
                                                        () if q else (("collections", "OrderedDict"), ("functools", "partial"))),
                        time=45 if q else 250,
                        bounds="list of two nodes with independent names; T of 0..2 strings or type objects, or None"))
    for k in ["FunctionNode", "TypeNode", "ObjectNode", "MethodNode", "OperatorFuncNode", "DefaultDictNode"]:
        obs.append(dict(name="strings-" + k, fn=strings(k, 2 if q else 3), time=30 if q else 200,
                        bounds="arbitrary module/class/trusted strings over small alphabets, lengths <= "
                               + ("2/2/5" if q else "3/3/7")))
    return obs


def prepare():
    arch.prepare()


def prepare_replay():
    prepare()
