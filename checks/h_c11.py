"""C11: nothing outside the documented families is trusted by default."""
import json
import os

import arch
import names11
import numpy as np
from arch import B, CANARY, DEFAULT_NAME, FOREIGN, KINDS, LEAVES, SLOTS
from observe import OBS

ASSUMPTIONS = [
    "names: everything callable (and every sub-module) importable from the namespaces listed in the property and "
    "everything skops.io._trusted_types computes, enumerated against the installed versions, plus misspelt and "
    "look-alike names; one symbolic index ranges over the whole table",
    "a name is a member of a documented family iff the object it resolves to is (decided on the object: numpy "
    "ufunc/scalar/dtype/array/RNG types, scipy.special ufuncs, scipy.sparse matrices, BaseEstimator subclasses of "
    "sklearn, Tree and loss classes, listed builtins)",
    "names that loading never looks at (those of a CachedNode, __class__ of a v0 FunctionNode) are not claimed",
]
SKIP = ("NoSuchNode", "CachedNode")
KS = [k for k in sorted(set(LEAVES + KINDS)) if k not in SKIP]
OUTER = [k for k in KINDS if k in DEFAULT_NAME]      # default-trusted outer kinds
FUNCS = tuple(sorted(["run", "tofile", "dump", "__reduce__", "__class__", "__init__", "__call__", "fit", "predict",
                      "from_bytes", "fromkeys", "format", "mro", "__subclasses__", "__globals__", "view", "at",
                      "reduce", "set_state", "sqrt", "__new__", "append", ""]))


def big_name(ctx, label, which):
    ps, ms, cs, ks = names11.columns(which)
    return arch._split(ctx.enum(label, ks), ps, ms, cs)


def fam(m, c):
    if arch.REPLAY:
        return names11.in_fam(m, c)
    from symx.values import lift
    return lift(names11.in_fam, m, c)


def leaf(ctx, b, k, n):
    """State of one node of kind k that names n, everything else trusted by default."""
    if k == "MethodNode":
        o = ctx.pick("objkind", ["ObjectNode", "TypeNode", "ListNode", "NdArrayNode", "DictNode", "FunctionNode"])
        obj = arch.make(b, o, n, None, None, {})
        return b.node(k, "types", "MethodType", content={"func": ctx.enum("func", FUNCS), "obj": obj})
    return arch.make(b, k, n, None, None, {"func": "run"})


def verdict(ctx, st, n, k, proto):
    from skops.io import get_untrusted_types
    try:
        U = get_untrusted_types(data=arch.pack(st, proto))
    except Exception as exc:
        ctx.outcome = "no verdict: " + type(exc).__name__
        return
    ctx.outcome = "reported"
    if len(U) == 0:
        ctx.outcome = "accepted"
        ctx.check(k != "MethodNode", "a method is accepted by default")
        ctx.check(fam(n[0], n[1]), k + " accepts a name outside the documented families by default")


def single(k, which, lo, hi):
    def fn(ctx):
        arch.begin()
        n = big_name(ctx, "name", which)
        verdict(ctx, leaf(ctx, B(), k, n), n, k, ctx.int("protocol", lo, hi))
    return fn


def nested(outer, kinds, which, lo, hi):
    def fn(ctx):
        arch.begin()
        b = B()
        slot = ctx.pick("slot", SLOTS[outer])
        k = ctx.pick("kind", kinds)
        n = big_name(ctx, "name", which)
        st = arch.make(b, outer, DEFAULT_NAME[outer], slot, leaf(ctx, b, k, n), {})
        verdict(ctx, st, n, k, ctx.int("protocol", lo, hi))
    return fn


def free(kinds, what, lo, hi):
    """Any string as class in a given module, or as module of a given class."""
    def fn(ctx):
        arch.begin()
        if what == "class":
            n = (ctx.pick("module", FREE_MODULES), ctx.str("class", arch.NAMEALPHA, lo, hi))
        else:
            n = (ctx.str("module", arch.NAMEALPHA, lo, hi), ctx.pick("class", FREE_CLASSES))
        k = ctx.pick("kind", kinds)
        b = B()
        st = leaf(ctx, b, k, n)
        from skops.io import get_untrusted_types
        try:
            U = get_untrusted_types(data=arch.pack(st))
        except Exception as exc:
            ctx.outcome = "no verdict: " + type(exc).__name__
            return
        ctx.outcome = "reported"
        if len(U) == 0:
            ctx.outcome = "accepted"
            if arch.REPLAY:
                ok = names11.in_fam(n[0], n[1])
            else:
                ok = arch.disj([(n[0] == p[0]) & (n[1] == p[1]) for p in names11.fam_like(n[0], n[1])])
            ctx.check(ok, k + " accepts a name outside the documented families by default")
    return fn


FREE_MODULES = ["numpy", "builtins", "os", "scipy.special._ufuncs", "sklearn.linear_model._ridge", "operator",
                "numpy.random", "collections", "sklearn.tree._tree", "functools"]
FREE_CLASSES = ["sqrt", "int", "Ridge", "system", "expit", "list", "Tree", "OrderedDict"]


def wide(kinds, sizes):
    def fn(ctx):
        from skops.io import get_untrusted_types
        arch.begin()
        st = arch.wide(ctx, kinds, sizes, [("sxcan_a", "Danger"), ("builtins", "int")])
        try:
            U = get_untrusted_types(data=arch.pack(st))
        except Exception as exc:
            ctx.outcome = "no verdict: " + type(exc).__name__
            return
        ctx.outcome = "reported"
        ctx.check("sxcan_a.Danger" in U, "an untrusted name in a big container is not reported")
    return fn


def chain(kinds, depths):
    def fn(ctx):
        from skops.io import get_untrusted_types
        arch.begin()
        b = B()
        d = ctx.pick("depth", depths)
        n = ctx.pick("name", [("sxcan_a", "Danger"), ("builtins", "int"), ("os", "system")])
        lf = arch.make(b, ctx.pick("leaf", ["TypeNode", "ObjectNode", "FunctionNode", "DictNode", "JsonNode"]), n, None, None, {})
        st = arch.chain(ctx, b, kinds, d, lf)
        try:
            U = get_untrusted_types(data=arch.pack(st))
        except Exception as exc:
            ctx.outcome = "no verdict: " + type(exc).__name__
            return
        ctx.outcome = "reported"
        if n[0] != "builtins":
            ctx.check((n[0] + "." + n[1]) in U, "an untrusted name deep in an archive is not reported")
    return fn


CHAIN = ["ListNode", "DictNode", "TupleNode", "ObjectNode", "TreeNode", "DTypeNode", "NdArrayNode", "PartialNode",
         "OperatorFuncNode"]


def deep(kinds, which):
    """two levels of default-trusted nodes above the name"""
    def fn(ctx):
        arch.begin()
        b = B()
        o1 = ctx.pick("o1", ["ListNode", "DictNode", "TreeNode", "LossNode", "ObjectNode"])
        o2 = ctx.pick("o2", ["ListNode", "DictNode", "TreeNode", "LossNode", "ObjectNode", "TupleNode"])
        k = ctx.pick("kind", kinds)
        n = big_name(ctx, "name", which)
        st = leaf(ctx, b, k, n)
        for o, s in ((o2, ctx.pick("s2", SLOTS[o2])), (o1, ctx.pick("s1", SLOTS[o1]))):
            st = arch.make(b, o, DEFAULT_NAME[o], s, st, {})
        verdict(ctx, st, n, k, 2)
    return fn


MINI = sorted(set(CANARY + FOREIGN + [("numpy", "sqrt"), ("builtins", "list"), ("foo", "attrgetter"),
                                      ("sxcan_a", "attrgetter")]))


def refused(kinds, lo, hi):
    """loads without trusted list: whatever is reported is refused, and nothing is called."""
    def fn(ctx):
        from skops.io import get_untrusted_types, loads
        arch.begin()
        k = ctx.pick("kind", kinds)
        n = arch.name(ctx, "name", MINI)
        st = leaf(ctx, B(), k, n)
        data = arch.pack(st, ctx.int("protocol", lo, hi))
        T = ctx.pick("T", [None, [], ()])
        try:
            U = get_untrusted_types(data=data)
        except Exception:
            ctx.outcome = "no verdict"
            return
        from skops.io.exceptions import UntrustedTypesFoundException
        events = []
        OBS.start(lambda *ev: events.append(ev))
        try:
            loads(data, trusted=T)
            res = "ok"
        except UntrustedTypesFoundException:
            res = "untrusted"
        except Exception as exc:
            res = type(exc).__name__
        OBS.finish()
        ctx.outcome = res
        ctx.check((res == "untrusted") == (len(U) > 0), "load does not refuse exactly what is reported")
        if len(U) > 0:
            ctx.check(not [e for e in events if e[0] == "call"], "a refused archive has something called")
        ctx.check(not arch.canaries.ledger(), "code of an unlisted module runs without trusted list")
    return fn


def rng_names():
    return tuple(sorted([n for n in dir(np.random)]))


rng_names._sx_direct = True
RNG_OK = (np.random.BitGenerator, np.random.Generator, np.random.SeedSequence, np.random.RandomState)


def rng(lo, hi):
    """bit_generator names: nothing but bit generators is called"""
    def fn(ctx):
        from skops.io import loads
        arch.begin()
        b = B()
        n = ctx.pick("bitgen", rng_names())
        proto = ctx.int("protocol", lo, hi)
        state = {"bit_generator": n, "state": {"state": 5, "inc": 3}, "has_uint32": 0, "uinteger": 0}
        if ctx.bool("old"):
            st = b.node("RandomGeneratorNode", "numpy.random._generator", "Generator", content={"bit_generator": state})
        else:
            st = b.node("RandomGeneratorNode", "numpy.random._generator", "Generator", content={
                "bit_generator": b.js(json.dumps(state)), "seed_seq": b.dic({"entropy": b.js("1")})})
        before = np.random.get_state()[1].tolist()
        called = []

        def cb(kind, a, *r):
            if kind == "call":
                called.append(a[0])
        OBS.start(cb)
        try:
            loads(arch.pack(st, proto))
            ctx.outcome = "ok"
        except Exception as exc:
            ctx.outcome = type(exc).__name__
        OBS.finish()
        for c in called:
            ctx.check(ok_rng(c), "a name of numpy.random that is no bit generator is called: " + c)
        ctx.check(np.random.get_state()[1].tolist() == before, "the global random state is changed")
    return fn


def ok_rng(full):
    o = getattr(np.random, full.rpartition(".")[2], None)
    return isinstance(o, type) and issubclass(o, RNG_OK)


ok_rng._sx_direct = True


def lists(ctx):
    """Every name in a list computed for default trust is a member of a family."""
    arch.begin()
    from skops.io import get_untrusted_types
    ps = tuple(sorted(names11.default_lists()))
    i = ctx.enum("entry", tuple(str(k) for k in range(len(ps))))
    n = arch._split(i, ps, tuple(p[0] for p in ps), tuple(p[1] for p in ps))
    k = ctx.pick("kind", ["TypeNode", "FunctionNode", "ObjectNode", "JsonNode", "NdArrayNode"])
    verdict(ctx, arch.make(B(), k, n, None, None, {}), n, k, 2)


def obligations(tier):
    q = tier == "quick"
    obs = [dict(name="single-" + k, fn=single(k, "big", 0, 2 if q else 3), time=60 if q else 200,
                bounds=f"{k}: any of {len(names11.big())} importable names, protocol 0..{2 if q else 3}") for k in KS]
    for o in OUTER:
        if o in ("FunctionNode", "TypeNode"):
            continue
        obs.append(dict(name="in-" + o, fn=nested(o, KS, "medium" if q else "big", 2 if q else 0, 2),
                        time=40 if q else 250,
                        bounds=f"any node kind in any slot of a default-trusted {o}; any of "
                               f"{len(names11.medium() if q else names11.big())} names"))
    obs.append(dict(name="deep", fn=deep(["ObjectNode", "TypeNode", "FunctionNode"] if q else KS, "medium"),
                    time=40 if q else 250, bounds="two default-trusted levels above the name"))
    fk = [k for k in KS if k not in ("MethodNode",)]
    for w, lo, hi in (("class", 0, 12 if q else 18), ("module", 0, 16 if q else 30)):
        for i in range(0, len(fk), 6):
            obs.append(dict(name=f"free-{w}-{i}", fn=free(fk[i:i + 6], w, lo, hi), time=40 if q else 250,
                            bounds=f"any string of printable characters, length <= {hi}, as {w} name"))
    W = arch.Wide.KINDS
    for i in range(0, len(W), 5):
        obs.append(dict(name=f"wide-{i}", fn=wide(W[i:i + 5], [40] if q else [3, 40, 70, 260]), time=40 if q else 250,
                        bounds="containers of 40 (3..260) nodes with one untrusted node at any position"))
    obs.append(dict(name="chain", fn=chain(CHAIN, [3, 12, 40] if q else list(range(3, 70, 3))), time=40 if q else 250,
                    bounds="chains of 3, 12, 40 (3..69) containers above an untrusted node"))
    obs.append(dict(name="lists", fn=lists, time=40, bounds="every entry of the computed default lists"))
    obs.append(dict(name="rng", fn=rng(0, 2), time=40, bounds="every name of numpy.random as bit generator, protocol 0..2"))
    for i in range(0, len(KS), 8):
        obs.append(dict(name=f"refused-{i}", fn=refused(KS[i:i + 8], 0, 2), time=40,
                        bounds="loads(trusted=None/[]/()) of single nodes, names that are harmless to call"))
    return obs


HFILE = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "evidence", "C11_names.json")


def harvest():
    """Every name the audit of some node kind compares names with, read off the membership tests of a run."""
    from symx import core, rt
    from skops.io import get_untrusted_types
    found = set()

    def watch(c):
        if isinstance(c, (list, tuple, set, frozenset, dict)):
            for e in c:
                if type(e) is str and "." in e and "/" not in e and len(e) < 200:
                    found.add(e)

    rt.CONTAINS_WATCH.append(watch)

    def one():
        for k in KS:
            for proto in (0, 1, 2):
                arch.begin()
                st = arch.make(B(), k, ("sxcan_a", "Danger"), None, None, {"func": "run"})
                try:
                    get_untrusted_types(data=arch.pack(st, proto))
                except Exception:
                    pass

    core.Engine(max_time=30).explore(one)
    rt.CONTAINS_WATCH.remove(watch)
    names11.HARVEST[:] = sorted({names11._split(e) for e in found} - {("sxcan_a", "Danger"), ("sxcan_a", "Danger.run")})
    os.makedirs(os.path.dirname(HFILE), exist_ok=True)
    with open(HFILE, "w") as f:
        json.dump(names11.HARVEST, f)


def prepare_replay():
    with open(HFILE) as f:
        names11.HARVEST[:] = [tuple(p) for p in json.load(f)]
    prepare()


def prepare():
    for n in dir(np.random):
        f = getattr(np.random, n)
        if isinstance(f, type):
            OBS.watch_call(f, ["numpy.random." + n])
    arch.prepare()
    if not arch.REPLAY:
        harvest()
    names11.fam_set()
    names11.columns("big"), names11.columns("medium")
