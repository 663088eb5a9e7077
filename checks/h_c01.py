"""C01: loading never uses code or objects the caller did not vouch for."""
import arch
from arch import B, CANARY, CROSS, DEFAULTS, DEFAULT_NAME, FOREIGN, KINDS, LEAVES, SLOTS

REPLAY_ENV = {}
ASSUMPTIONS = [
    "archives are trees of the registered node kinds (plus an unregistered one) along a spine of "
    "symbolic kinds, slots and names; slots off the spine hold valid fillers",
    "names are drawn from a table of harness-owned canary modules, harmless foreign names, "
    "documented defaults and mismatched module/class pairs; one obligation uses arbitrary strings over "
    "a small alphabet",
    "a resolution is observed at importlib.import_module / getattr, at the canary modules' own ledger, "
    "and in the object graph of the result",
]
ALL = sorted(set(CANARY + FOREIGN + DEFAULTS + CROSS + list(DEFAULT_NAME.values())))
SMALL = [("sxcan_a", "Danger"), ("sxcan_a", "danger"), ("sxcan_b", "Danger"), ("os", "getpid"),
         ("operator", "attrgetter"), ("foo", "attrgetter"), ("sxcan_a", "attrgetter"), ("sxcan_a", "dict")]


def names_of(k):
    base = SMALL
    if k in DEFAULT_NAME:
        base = base + [DEFAULT_NAME[k]]
    return base


def names_all(k):
    return ALL


def names_min(k):
    base = [("sxcan_a", "Danger"), ("sxcan_b", "danger")]
    if k in DEFAULT_NAME:
        base = base + [DEFAULT_NAME[k]]
    return base


def names_one(k):
    return [DEFAULT_NAME.get(k, ("sxcan_b", "Danger"))]


def run(ctx, st, T, p=2):
    data = arch.pack(st, p)
    v = arch.Vouch(ctx, T)
    out, res = arch.load_guarded(data, T, v, ALL)
    ctx.outcome = out
    return out, res


def tree(levels, leaves, names, nT, lo=2, hi=2, outer=None):
    def fn(ctx):
        arch.begin()
        b = B()
        st, _ = arch.spine(ctx, b, levels, leaves, names, outer)
        T = arch.trusted(ctx, nT, ALL, lo=nT)
        run(ctx, st, T, ctx.int("protocol", lo, hi))
    return fn


IDK = ["FunctionNode", "TypeNode", "ObjectNode", "JsonNode", "ListNode", "DictNode", "OperatorFuncNode",
       "LossNode", "MethodNode"]


def ids(first, kinds, three, nT):
    """[A, Wrap(B), C] where ids may coincide (with each other, the wrapper or the root)."""
    def fn(ctx):
        arch.begin()
        b = B(10)
        nodes = []
        for j in range(3 if three else 2):
            k = ctx.pick(f"k{j}", first if j == 0 else kinds)
            d = {"func": "run"} if k == "MethodNode" else {}
            st = arch.make(b, k, arch.name(ctx, f"n{j}", [("sxcan_a", "Danger"), ("sxcan_b", "danger"),
                                                          DEFAULT_NAME.get(k, ("sxcan_b", "Danger"))]), None, None, d)
            i = ctx.int(f"id{j}", 0, 4 if three else 2)
            if i == 0:
                del st["__id__"]
            else:
                st["__id__"] = i
            nodes.append(st)
        wk = ctx.pick("wrap", ["ListNode", "TreeNode", "PartialNode", "ObjectNode"] if three else ["ListNode", "TreeNode"])
        w = arch.make(b, wk, names_one(wk)[0],
                      {"ListNode": "item", "ObjectNode": "attr", "PartialNode": "func", "TreeNode": "arg"}[wk],
                      nodes[1], {})
        w["__id__"] = 4 if three else 2
        items = [nodes[0], w]
        if ctx.bool("swap"):
            items = [w, nodes[0]]
        root = b.seq(items + nodes[2:])
        root["__id__"] = 3
        T = arch.trusted(ctx, nT, [("sxcan_a", "Danger"), ("sxcan_b", "danger"), ("sxcan_b", "Danger"),
                                   ("functools", "partial")], lo=nT)
        run(ctx, root, T)
    return fn


def history(kinds):
    """Two loads in one process: the second is judged by its own trusted list only."""
    def fn(ctx):
        arch.begin()
        k = ctx.pick("k", kinds)
        n = arch.name(ctx, "n", [("sxcan_a", "Danger"), ("sxcan_a", "danger"), ("operator", "attrgetter"),
                                 ("os", "getpid"), ("functools", "partial")])
        d = {"func": "run"} if k == "MethodNode" else {}
        obj = ("sxcan_a", "Danger")
        st = arch.make(B(), k, n, None, None, d)
        st2 = arch.make(B(), k, n, None, None, d)
        pairs = [("sxcan_a", "Danger"), ("sxcan_a", "danger"), ("operator", "attrgetter"), ("os", "getpid"),
                 ("functools", "partial"), ("sxcan_a", "Danger.run"), ("numpy", "sqrt")]
        T1 = arch.trusted(ctx, 2, pairs, lo=2)
        use = ctx.pick("first", ["loads", "get_untrusted_types", "visualize"])
        from skops.io import get_untrusted_types, loads, visualize
        data = arch.pack(st)
        try:
            if use == "loads":
                loads(data, trusted=T1)
            elif use == "visualize":
                visualize(data, trusted=T1, sink=lambda *a, **k: None)
            else:
                get_untrusted_types(data=data)
        except Exception:
            pass
        arch.canaries.forget()
        T2 = [ctx.enum("U0", ("sxcan_b.Danger", "sxcan_a.Danger", "zzz", "numpy.sqrt"))]
        if ctx.bool("U1"):
            T2 = None
        data2 = arch.pack(st2)
        v = arch.Vouch(ctx, T2 or [])
        out, _ = arch.load_guarded(data2, T2, v, ALL)
        ctx.outcome = out
    return fn


def strings(kinds, n):
    """Arbitrary strings as module, class and trusted name."""
    def fn(ctx):
        arch.begin()
        k = ctx.pick("k", kinds)
        m = ctx.str("m", "sx.", 1, n)
        c = ctx.str("c", "sx.", 1, n)
        d = {"func": ctx.str("f", "sx.", 1, 1)} if k == "MethodNode" else {}
        st = arch.make(B(), k, (m, c), None, None, d)
        T = [ctx.str("t", "sx.* ", 1, 2 * n + 1)]
        run(ctx, st, T)
    return fn


def free(kinds, d, lo, hi):
    """A canary of any shape of name against any string as trusted name."""
    def fn(ctx):
        arch.begin()
        n = ctx.pick("n", arch.ODD[lo:hi])
        k = ctx.pick("k", kinds)
        st = arch.make(B(), k, n, None, None, {})
        T = [arch.free_name(ctx, "t", n, d)]
        if ctx.bool("nested"):
            st = B(20).seq([st])
        run(ctx, st, T)
    return fn


def wide(kinds, sizes):
    def fn(ctx):
        arch.begin()
        st = arch.wide(ctx, kinds, sizes, [("sxcan_a", "Danger"), ("sxcan_b", "Danger")])
        T = [ctx.enum("T", ("sxcan_a", "sxcan_a.Danger", "sxcan_b.Danger", "sxcan_b.danger", "zzz"))]
        run(ctx, st, T)
    return fn


def deepchain(kinds, depths):
    def fn(ctx):
        arch.begin()
        b = B()
        d = ctx.pick("depth", depths)
        leaf = arch.make(b, ctx.pick("leaf", ["TypeNode", "ObjectNode", "FunctionNode"]), ("sxcan_a", "Danger"), None, None, {})
        st = arch.chain(ctx, b, kinds, d, leaf)
        T = [ctx.enum("T", ("sxcan_a", "sxcan_a.Danger", "sxcan_b.Danger", "functools.partial"))]
        run(ctx, st, T)
    return fn


CHAIN = ["ListNode", "DictNode", "TupleNode", "ObjectNode", "PartialNode", "TreeNode", "DTypeNode",
         "NdArrayNode", "OperatorFuncNode"]


def obligations(tier):
    q = tier == "quick"
    obs = []
    leafset = sorted(set(LEAVES + KINDS))
    two = "any 2-entry trusted list over all names and misleading variants"
    obs.append(dict(name="single", fn=tree([], leafset, names_all, 2), time=60,
                    bounds="one node of any kind, any name of the table, " + two))
    for k in sorted(KINDS, key=lambda k: -len(SLOTS[k])):
        obs.append(dict(name=f"pair-{k}", fn=tree([[k]], leafset, names_min if q else names_of, 2),
                        time=70 if q else 300,
                        bounds=f"{k} root, any node kind in any of its slots, " + two))
    LEAF3 = ["FunctionNode", "TypeNode", "ObjectNode", "MethodNode", "LossNode", "OperatorFuncNode",
             "RandomGeneratorNode", "PartialNode", "SliceNode"]
    ROOTS = ["ListNode", "DictNode", "PartialNode", "LossNode", "MaskedArrayNode", "MethodNode",
             "DefaultDictNode"]
    mids = ["ListNode", "TreeNode", "ObjectNode"] if q else KINDS
    for k in mids:
        obs.append(dict(name=f"triple-{k}", fn=tree([ROOTS if q else KINDS, [k]], LEAF3, names_min, 1, outer=names_one),
                        time=70 if q else 300,
                        bounds=f"three levels: any kind (quick: 7 kinds), {k}, one of 10 kinds; names of the two outer levels "
                               "default; one-entry trusted list"))
    obs.append(dict(name="protocols", fn=tree([], ["FunctionNode", "FunctionNode0", "RandomGeneratorNode",
                                                   "RandomGeneratorNode0", "TypeNode", "MethodNode",
                                                   "OperatorFuncNode", "LossNode"], names_of, 2, -1, 4), time=60,
                    bounds="one node of a kind with old layouts (both layouts), protocol -1..4, " + two))
    obs.append(dict(name="history", fn=history(["FunctionNode", "TypeNode", "ObjectNode", "OperatorFuncNode",
                                                "MethodNode", "LossNode", "PartialNode", "DictNode",
                                                "ConstructorFromReduceNode"]), time=60,
                    bounds="two calls in one process (loads/get_untrusted_types/visualize, then loads); every "
                           "trusted list of the first, 5 of the second"))
    for k in (IDK[:2] if q else IDK):
        obs.append(dict(name="ids-" + k, fn=ids([k], IDK, not q, 1), time=60 if q else 300,
                        bounds=f"list of {k} and a wrapper of any of 9 kinds, in both orders; ids 0 (absent)..2 incl. that of "
                               "the wrapper" + ("" if q else "; a third node, ids 0..4 incl. that of the root")))
    for i in range(0, len(arch.ODD), 3):
        obs.append(dict(name=f"free-{i}", fn=free(["TypeNode", "FunctionNode", "ObjectNode"] if q else ["TypeNode", "FunctionNode",
                        "ObjectNode", "OperatorFuncNode", "LossNode", "DictNode", "ConstructorFromReduceNode"], 2 if q else 5, i, i + 3),
                        time=40 if q else 200,
                        bounds="canaries with private, numbered and nested names; T any string of printable characters about as long as the name"))
    W = arch.Wide.KINDS
    for i in range(0, len(W), 5):
        obs.append(dict(name=f"wide-{i}", fn=wide(W[i:i + 5], [40] if q else [3, 40, 70, 260]), time=40 if q else 250,
                        bounds="containers of 40 (3..260) nodes, one untrusted node at any position and another at the start or end"))
    obs.append(dict(name="chain", fn=deepchain(CHAIN, [3, 12, 40] if q else list(range(3, 70, 3))), time=40 if q else 250,
                    bounds="chains of 3, 12, 40 (3..69) containers of one kind above an untrusted node"))
    for k in ["FunctionNode", "TypeNode", "ObjectNode", "OperatorFuncNode", "MethodNode", "LossNode"]:
        obs.append(dict(name=f"strings-{k}", fn=strings([k], 2 if q else 3), time=40 if q else 200,
                        bounds="arbitrary module/class/trusted strings over a 3..5 letter alphabet, lengths <= "
                               + ("2/2/5" if q else "3/3/7")))
    return obs


def prepare():
    arch.prepare()


def prepare_replay():
    arch.prepare()
