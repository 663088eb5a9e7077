"""C02: inspecting an archive is inert."""
import os

import arch
from arch import B, CANARY, CROSS, DEFAULTS, DEFAULT_NAME, FOREIGN, KINDS, LEAVES
from hlib import scratch_dir
from observe import OBS

ASSUMPTIONS = [
    "archives are trees of the registered node kinds along a spine of symbolic kinds, slots and names; slots "
    "off the spine hold valid fillers; member names include absolute and parent paths of a harness-owned file",
    "resolution is observed at importlib.import_module, getattr on modules/loaded objects, calls of watched "
    "callables, the canary modules' ledger and sys.modules; file and process effects at Python audit events",
]
TOKEN = "sxtoken"
ALL = sorted(set(CANARY + FOREIGN + DEFAULTS + CROSS + list(DEFAULT_NAME.values())))
MIN = [("sxcan_a", "Danger"), ("sxcan_b", "danger"), ("os", "getpid"), ("foo", "attrgetter")]


def names_all(k):
    return ALL


def names_min(k):
    return [MIN[0], MIN[3]] + ([DEFAULT_NAME[k]] if k in DEFAULT_NAME else [])


def names_mid(k):
    return MIN + ([DEFAULT_NAME[k]] if k in DEFAULT_NAME else [])


def names_one(k):
    return [DEFAULT_NAME.get(k, ("sxcan_b", "Danger"))]


def consume(nodes, *a, **k):
    n = 0
    for x in nodes:
        n += 1
    return n


OPS = ["get_untrusted_types", "get_untrusted_types-file", "visualize", "visualize-file", "loads", "load"]


def inspect(ctx, st, proto, ops):
    from skops.io import get_untrusted_types, load, loads, visualize
    from skops.io.exceptions import UntrustedTypesFoundException
    op = ctx.pick("op", ops)
    data = arch.pack(st, proto)
    if op.endswith("file") or op == "load":
        path = os.path.join(scratch_dir(), "in.skops")
        arch.write(path, data)
    T = None
    if op in ("loads", "load"):
        T = [ctx.enum("T", ("zzz", "sxcan_a.Danger", "os.getpid", "functools.partial", "builtins.list"))]
    events = []
    loading = op in ("loads", "load")

    def cb(*ev):
        if loading:
            events.append(ev)
        else:
            ctx.fail("a name of the archive is resolved while inspecting it (" + ev[0] + ")")

    OBS.start(cb)
    try:
        if op == "get_untrusted_types":
            get_untrusted_types(data=data)
        elif op == "get_untrusted_types-file":
            get_untrusted_types(file=path)
        elif op == "visualize":
            visualize(data, trusted=T, sink=consume)
        elif op == "visualize-file":
            visualize(path, sink=consume)
        elif op == "loads":
            loads(data, trusted=T)
        else:
            load(path, trusted=T)
        out = "ok"
    except UntrustedTypesFoundException:
        out = "untrusted"
    except Exception as exc:
        out = type(exc).__name__
    OBS.finish()
    ctx.outcome = op + ": " + out
    if not loading or out == "untrusted":
        ctx.check(not events, "a name of the archive was resolved before the trust decision")
        ctx.check(not arch.canaries.ledger(), "code of a module named by the archive ran")
        ctx.check(not arch.canaries.imported(), "a module named by the archive was imported")
        ctx.check(not OBS.opened, lambda: "a file or process was touched: " + OBS.opened[0].split("/")[0])


def tree(levels, leaves, names, ops, outer=None, lo=2, hi=2):
    def fn(ctx):
        arch.begin()
        st, _ = arch.spine(ctx, B(), levels, leaves, names, outer, files=None if levels else arch.FILES + extra_files())
        inspect(ctx, st, ctx.int("protocol", lo, hi), ops)
    return fn


def extra_files():
    p = os.path.join(scratch_dir(), TOKEN)
    return ("/dev/" + TOKEN, "../" + TOKEN, TOKEN)


def obligations(tier):
    q = tier == "quick"
    leafset = sorted(set(LEAVES + KINDS))
    ROOTS = ["ListNode", "DictNode", "PartialNode", "LossNode", "MaskedArrayNode", "MethodNode",
             "DefaultDictNode"]
    obs = [dict(name="single-" + o, fn=tree([], leafset, names_all, [o], None, *((0, 3) if o in ("get_untrusted_types", "load") else (2, 2))), time=60,
                bounds=f"{o}: one node of any kind, any name of the table, any member name"
                   + (", protocol 0..3" if o in ("get_untrusted_types", "load") else ""))
           for o in OPS]
    for k in KINDS:
        obs.append(dict(name="pair-" + k, fn=tree([[k]], leafset, names_mid, ["get_untrusted_types", "visualize"]
                                                          if q else ["get_untrusted_types", "visualize", "loads"]), time=60 if q else 200,
                        bounds=f"{k} root, any node kind in any of its slots; get_untrusted_types, visualize"
                               + ("" if q else ", loads")))
    for k in (["ListNode", "TreeNode"] if q else KINDS):
        obs.append(dict(name="triple-" + k, fn=tree([ROOTS if q else KINDS, [k]], leafset, names_min, ["loads"],
                                                    names_one), time=60 if q else 200,
                        bounds=f"three levels: any kind, {k}, any kind; default names on the outer levels"))
    return obs


def prepare():
    arch.prepare()
    OBS.files = (TOKEN,)


def prepare_replay():
    prepare()
