"""C08: archives of every supported protocol load with the right loader."""
import functools
import io
import json
import operator
import zipfile
from collections import OrderedDict, defaultdict

import arch
import deep
import numpy as np
from arch import B, DEFAULT_NAME, KINDS, LEAVES, SLOTS

ASSUMPTIONS = [
    "old layouts are those the repository keeps loaders for: FunctionNode before protocol 1, RandomGeneratorNode "
    "before protocol 1 and before protocol 2; every other kind never changed",
    "a Generator restored from a layout without seed sequence is compared by bit generator and its state",
    "archives of a protocol above the current one are only required to be refused with TypeError for unknown kinds",
    "protocol-0 archives holding a Generator are known to be refused (known finding); only the obligation "
    "generator-v0 looks at them",
]
CHANGED = {"FunctionNode": [0], "RandomGeneratorNode": [0, 1]}     # protocols with a layout of their own
CUR = None


def current():
    from skops.io._protocol import PROTOCOL
    return PROTOCOL


def outcome(f, *a, **k):
    try:
        return "ok", f(*a, **k)
    except Exception as exc:
        return type(exc).__name__, str(exc)


def load(data):
    from skops.io import get_untrusted_types, loads
    k, U = outcome(get_untrusted_types, data=data)
    if k != "ok":
        return "inspect: " + k, U
    return outcome(loads, data, trusted=U)


def _same(a, b, old):
    deep.SEEDSEQ = not old
    try:
        return deep.same(a, b)
    finally:
        deep.SEEDSEQ = True


_same._sx_direct = True


def judge(ctx, a, b, what, old=False):
    ctx.outcome = a[0]
    if a[0] == "ok":
        ctx.check(b[0] == "ok", lambda: what + f": {b[0]}")
        ctx.check(_same(a[1], b[1], old) is not False, what + ": another object is loaded")


# ------------------------------------------------------------- the registry
def registry():
    from skops.io import _audit
    import skops.io  # noqa
    return _audit.NODE_TYPE_MAPPING


def kinds_registered():
    return sorted({k for k, _ in registry() if not k.startswith("Sx")})


def smallest(kind, p):
    ps = sorted(q for k, q in registry() if k == kind and q >= p)
    return registry()[(kind, ps[0])] if ps else None


registry._sx_direct = kinds_registered._sx_direct = smallest._sx_direct = True


def layout(kind, p):
    """Name of the filler kind with the layout this kind had under protocol p."""
    if kind == "FunctionNode" and p == 0:
        return "FunctionNode0"
    if kind == "RandomGeneratorNode" and p == 0:
        return "RandomGeneratorNode0"
    if kind == "RandomGeneratorNode" and p == 1:
        return "RandomGeneratorNode1"
    return kind


def build(b, kind, p, slot=None, child=None, nm=None):
    lay = layout(kind, p)
    nm = nm or DEFAULT_NAME.get(kind, ("builtins", "slice") if kind == "SliceNode" else
                                ("functools", "partial") if kind == "PartialNode" else ("builtins", "str"))
    if kind in ("OperatorFuncNode",):
        nm = ("operator", "attrgetter")
    if kind == "SparseMatrixNode":
        nm = ("scipy.sparse", "csr_matrix")
    if kind == "ConstructorFromReduceNode":
        nm = ("builtins", "list")
    if lay == "RandomGeneratorNode1":
        n = b.node("RandomGeneratorNode", nm[0], nm[1], content={
            "bit_generator": child if slot == "bit_generator" else b.js(arch.STATE_OK)})
        return n
    n = arch.make(b, lay, nm, slot, child, {"func": "fit" if kind == "MethodNode" else "run", "ref": 1,
                                               "file": arch.DEFAULT_FILE.get(kind, "a.bin")})
    if kind == "PartialNode" and slot != "func":
        n["content"]["func"] = build(b, "FunctionNode", p, nm=("numpy", "sqrt"))
    return n


def dispatch(lo):
    def fn(ctx):
        from skops.io._audit import get_tree
        from skops.io._utils import LoadContext
        arch.begin()
        kind = ctx.pick("kind", kinds_registered())
        p = ctx.int("protocol", lo, current())
        want = smallest(kind, int(p))
        b = B(10)
        st = build(b, kind, p)
        data = arch.pack(st, p)
        with zipfile.ZipFile(io.BytesIO(data)) as z:
            node = outcome(get_tree, st, LoadContext(src=z, protocol=p), trusted=None)
        ctx.outcome = node[0]
        if want is None:
            ctx.fail("no loader is registered for a protocol up to the current one: " + kind)
        if kind == "CachedNode" and node[0] != "ok":
            return
        ctx.check(node[0] == "ok", lambda: kind + f": no node is built ({node[0]})")
        ctx.check(type(node[1]) is want, kind + ": the loader is not the one of the smallest protocol not below the archive's")
    return fn


def unknown(lo, hi, n):
    """A node kind nobody registered, at the root or in a slot of any kind."""
    def fn(ctx):
        from skops.io import get_untrusted_types, loads, visualize
        arch.begin()
        kind = ctx.str("kind", arch.NAMEALPHA, 0, n) if ctx.bool("free") else ctx.pick("like", [
            "listNode", "List", "ListNode ", "FunctionNode0", "NoSuchNode", "Node", "TypeNodeX", "JsonNode2"])
        b = B()
        st = b.node(kind, "builtins", "list", content={})
        where = ctx.pick("where", ["root", *KINDS])
        p = ctx.int("protocol", lo, hi)
        if where != "root":
            s = ctx.pick("slot", SLOTS[where])
            q = p if p <= current() else current()
            if layout(where, q) in ("RandomGeneratorNode0",) or (layout(where, q) == "RandomGeneratorNode1" and s == "seed_seq"):
                ctx.outcome = "no slot"
                return
            st = build(b, where, q, s, st)
        data = arch.pack(st, p)
        for f in (lambda: get_untrusted_types(data=data), lambda: loads(data, trusted=[])):
            k, m = outcome(f)
            ctx.outcome = k
            ctx.check(k == "TypeError", "an unregistered node kind does not raise TypeError")
            ctx.check(kind in m, "the TypeError for an unregistered node kind does not name it")
    return fn


# --------------------------------------------------- unchanged and old layouts
NEVER = [k for k in sorted(set(KINDS + LEAVES)) if k not in (
    "NoSuchNode", "CachedNode", "FunctionNode0", "RandomGeneratorNode0")]


def nm_of(ctx, label, kind):
    if kind == "FunctionNode":
        return ctx.pick(label, [("numpy", "sqrt"), ("scipy.special._ufuncs", "expit"), ("builtins", "len"),
                                ("sxcan_a", "danger_list")])
    if kind in ("TypeNode", "ObjectNode"):
        return ctx.pick(label, [DEFAULT_NAME[kind], ("sxcan_a", "Danger")])
    return None


def hasgen(kinds):
    return "RandomGeneratorNode" in kinds


def tree(levels, leaves, slots=None):
    """Spine of kinds; every node written in the layout it had under the archive's protocol."""
    def fn(ctx):
        ks = [ctx.pick(f"k{i}", l) for i, l in enumerate(levels)]
        ss = [ctx.pick(f"s{i}", SLOTS[k]) for i, k in enumerate(ks)]
        leaf = ctx.pick("leaf", leaves)
        nm = nm_of(ctx, "name", leaf)
        twin = ctx.bool("shared") if leaf == "FunctionNode" and len(ks) == 1 else False

        def mk(b, p):
            st = build(b, leaf, p, nm=nm)
            for k, s in reversed(list(zip(ks, ss))):
                st0 = st
                st = build(b, k, p, s, st)
            if twin:
                st = b.seq([st, st0])
            return st
        arch.begin()
        cur = current()
        p = ctx.int("protocol", 0, cur - 1)
        if hasgen(ks + [leaf]) and p == 0:
            ctx.outcome = "known"
            return
        if any([k == "RandomGeneratorNode" and s == "seed_seq" for k, s in zip(ks, ss)]):
            ctx.outcome = "no old layout"
            return
        a = load(arch.pack(mk(B(), cur), cur))
        r = load(arch.pack(mk(B(), p), p))
        judge(ctx, a, r, "loading depends on the protocol the archive was written under", True)
    return fn


def generator_v0(ctx):
    arch.begin()
    where = ctx.pick("where", ["root", "ListNode", "DictNode", "ObjectNode"])

    def mk(b, p):
        st = build(b, "RandomGeneratorNode", p)
        return st if where == "root" else build(b, where, p, SLOTS[where][0 if where != "ObjectNode" else 1], st)
    a = load(arch.pack(mk(B(), current()), current()))
    b = load(arch.pack(mk(B(), 0), 0))
    ctx.outcome = b[0]
    if b[0] == "inspect: AttributeError" and "get_unsafe_set" in b[1]:
        ctx.fail("protocol-0 Generator is refused by the audit")
    judge(ctx, a, b, "protocol-0 Generator", True)


def history(kinds, n):
    """Archives of different protocols one after the other in one process."""
    def fn(ctx):
        arch.begin()
        cur = current()
        for i in range(n):
            k = ctx.pick(f"k{i}", kinds)
            p = ctx.int(f"p{i}", 0, cur + (1 if i == 0 else 0))
            if k == "RandomGeneratorNode" and p == 0:
                ctx.outcome = "known"
                return
            q = p if p <= cur else cur
            nm = ("numpy", "sqrt") if k == "FunctionNode" else None
            b = B()
            r = load(arch.pack(b.seq([build(b, k, q, nm=nm)]), p))
            if p > cur:
                continue
            ctx.check(r[0] == "ok", lambda: f"{k} under protocol {p} is not loaded after other archives: {r[0]}")
            x = r[1][0]
            if k == "FunctionNode":
                ctx.check(x is np.sqrt, "a function is loaded as something else after other archives")
            elif k == "RandomGeneratorNode":
                ctx.check(isinstance(x, np.random.Generator) and x.bit_generator.state["state"]["state"] == 5,
                          "a Generator is loaded as something else after other archives")
            ctx.outcome = "ok"
    return fn


# ------------------------------------------------------------- real objects
def plain(x):
    return x


def catalogue():
    import scipy.sparse as sp
    from scipy import special
    from sklearn.compose import ColumnTransformer
    from sklearn.ensemble import GradientBoostingClassifier, RandomForestClassifier
    from sklearn.gaussian_process import GaussianProcessClassifier
    from sklearn.linear_model import LogisticRegression, Ridge, SGDClassifier
    from sklearn.neighbors import KNeighborsClassifier
    from sklearn.pipeline import Pipeline
    from sklearn.preprocessing import FunctionTransformer, StandardScaler
    from sklearn.tree import DecisionTreeClassifier
    rng = np.random.RandomState(0)
    X, y = rng.rand(12, 3), np.arange(12) % 2
    g = np.random.Generator(np.random.PCG64DXSM(3))
    dd = defaultdict(list)
    dd["a"].append(np.log)
    out = {
        "functions": [np.sqrt, len, special.expit, {"f": np.exp, "g": (np.exp, np.exp)}],
        "partial": functools.partial(np.add, 1, where=functools.partial(np.log)),
        "types": [int, np.ndarray, Ridge, OrderedDict],
        "generators": {"a": g, "b": [np.random.Generator(np.random.MT19937(4)), g], "r": np.random.RandomState(5)},
        "containers": [(1, "a", None, True, 2.5), {"k": [1, {"x": {3}}], 2: "b"}, {1, 2}, OrderedDict(a=1), dd,
                       b"bytes", bytearray(b"ba"), slice(1, None, 2)],
        "arrays": [np.arange(4.0), np.array([np.sqrt, "a", None], dtype=object), np.float64(2), np.dtype("i4"),
                   np.ma.masked_array([1, 2, 3], mask=[0, 1, 0]), np.array([], dtype=object)],
        "sparse": [sp.csr_matrix(np.eye(3)), sp.coo_matrix(np.eye(2))],
        "operator": [operator.attrgetter("a", "b"), operator.itemgetter(1), operator.methodcaller("f", 1)],
        "method": [Ridge().fit],
        "function_transformer": FunctionTransformer(func=np.exp, inverse_func=np.log).fit(X),
        "pipeline": Pipeline([("s", StandardScaler()), ("f", FunctionTransformer(np.exp)), ("m", Ridge())]).fit(X, y),
        "columns": ColumnTransformer([("a", FunctionTransformer(np.abs), [0]), ("b", StandardScaler(), slice(1, 3))]).fit(X),
        "tree": FunctionTransformer(np.exp, kw_args={'g': g, 'f': [np.log]}),
        "plaintree": DecisionTreeClassifier(random_state=0).fit(X, y),
        "forest": RandomForestClassifier(3, random_state=np.random.RandomState(1)).fit(X, y),
        "sgd": [SGDClassifier(max_iter=5, tol=None, random_state=0).fit(X, y), LogisticRegression().fit(X, y)],
        "boosting": GradientBoostingClassifier(n_estimators=2, random_state=0).fit(X, y),
        "neighbors": KNeighborsClassifier(metric=plain_metric).fit(X, y),
        "gp": GaussianProcessClassifier().fit(X, y),
    }
    try:
        from quantile_forest import RandomForestQuantileRegressor
        out["quantile"] = RandomForestQuantileRegressor(2, random_state=0).fit(X, y)
    except Exception:
        pass
    return out


def plain_metric(a, b):
    return float(np.abs(a - b).sum())


_cat = {}
_dump = {}


def dumped(nm):
    """(object, archive bytes); dumped once per process."""
    from skops.io import dumps
    if not _cat:
        _cat.update(catalogue())
    if nm not in _dump:
        _dump[nm] = dumps(_cat[nm])
    return _cat[nm], _dump[nm]


def loaders(st, out):
    if isinstance(st, dict):
        k = st.get("__loader__")
        if k is not None:
            out.add(k)
        for v in st.values():
            loaders(v, out)
    elif isinstance(st, list):
        for v in st:
            loaders(v, out)
    return out


def plainjson(st):
    """JSON value of a node state tree written by get_state of a plain python value"""
    k = st["__loader__"]
    if k == "DictNode":
        return {a: plainjson(v) for a, v in st["content"].items()}
    if k in ("ListNode", "TupleNode"):
        return [plainjson(v) for v in st["content"]]
    if k == "JsonNode":
        return json.loads(st["content"])
    if k == "NdArrayNode":
        raise KeyError("array")
    raise KeyError(k)


def downgrade(st, p, which):
    """The schema in the layout of protocol p; which: list of flags for the changed nodes in order."""
    if isinstance(st, list):
        return [downgrade(v, p, which) for v in st]
    if not isinstance(st, dict):
        return st
    k = st.get("__loader__")
    if k == "FunctionNode" and p == 0:
        which.append(k)
        return {"__class__": "function", "__module__": "builtins", "__loader__": k, "__id__": st["__id__"],
                "content": {"module_path": st["__module__"], "function": st["__class__"]}}
    if k == "RandomGeneratorNode" and p <= 1:
        which.append(k)
        st = dict(st)
        bg = st["content"]["bit_generator"]
        st["content"] = {"bit_generator": bg if p == 1 else plainjson(bg)}
        return st
    return {a: downgrade(v, p, which) for a, v in st.items()}


def rewrite(data, p):
    src = zipfile.ZipFile(io.BytesIO(data))
    buf = io.BytesIO()
    which = []
    with zipfile.ZipFile(buf, "w") as z:
        for n in src.namelist():
            d = src.read(n)
            if n == "schema.json":
                st = downgrade(json.loads(d), p, which)
                st["protocol"] = p
                d = json.dumps(st)
            z.writestr(n, d)
    return buf.getvalue(), which


for _f in (catalogue, loaders, downgrade, rewrite, plainjson, plain_metric):
    _f._sx_direct = True

NAMES = ["functions", "partial", "types", "generators", "containers", "arrays", "sparse", "operator", "method",
         "function_transformer", "pipeline", "columns", "tree", "plaintree", "forest", "sgd", "boosting", "neighbors", "gp", "quantile"]
HEAVY = ("boosting", "forest", "gp", "quantile", "neighbors", "columns")


def objects(names):
    def fn(ctx):
        from skops.io import get_untrusted_types, loads
        arch.begin()
        nm = ctx.pick("object", names)
        p = int(ctx.int("protocol", 0, current()))
        try:
            obj, data = dumped(nm)
        except KeyError:
            ctx.outcome = "not installed"
            return
        for k in sorted(loaders_of(data)):
            ctx.check((k, current()) in registry(), "dump emits a loader that is not registered for the current protocol: " + k)
        if nm in ("generators", "tree") and p == 0:
            ctx.outcome = "known"
            return
        old, which = rewrite(data, p)
        r = outcome(lambda: loads(old, trusted=get_untrusted_types(data=old)))
        ctx.outcome = r[0]
        ctx.check(r[0] == "ok", lambda: f"an object dumped under an older protocol does not load: {nm}, {r[0]}")
        if p == current():
            ctx.outcome = "current"      # whether the object itself survives is C04's question
            return
        new = loads(data, trusted=get_untrusted_types(data=data))
        ctx.check(_same(new, r[1], True) is not False, f"an object dumped under an older protocol loads differently: {nm}")
        if "FunctionNode" in which or "RandomGeneratorNode" in which:
            ctx.outcome = "rewritten"
    return fn


def loaders_of(data):
    return loaders(json.loads(zipfile.ZipFile(io.BytesIO(data)).read("schema.json")), set())


loaders_of._sx_direct = True


def obligations(tier):
    q = tier == "quick"
    obs = [dict(name="dispatch", fn=dispatch(0), time=60, bounds="every registered node kind, every protocol 0..current"),
           dict(name="generator-v0", fn=generator_v0, time=30, bounds="Generator of protocol 0 at the root or in 3 containers")]
    for lo, hi in ((0, 1), (2, 3)):
        obs.append(dict(name=f"unknown-{lo}", fn=unknown(lo, hi, 6 if q else 14), time=40 if q else 300,
                        bounds=f"unregistered kind (any printable string up to {6 if q else 14} characters or a near miss) at the root or in "
                               f"any slot of any kind, protocol {lo}..{hi}"))
    obs.append(dict(name="single", fn=tree([], NEVER), time=40, bounds="every kind at the root, protocol 0..current-1"))
    ch = [KINDS[i:i + 5] for i in range(0, len(KINDS), 5)]
    for c in ch:
        obs.append(dict(name="pair-" + c[0], fn=tree([c], NEVER), time=60 if q else 200,
                        bounds="every kind (old layout where it has one) in every slot of " + ", ".join(c) + ", protocol 0..current-1"))
    for c in ch:
        obs.append(dict(name="triple-" + c[0], fn=tree([c, ["ListNode", "DictNode", "ObjectNode", "PartialNode"] if q else KINDS],
                                                      ["FunctionNode", "RandomGeneratorNode"] if q else NEVER), time=60 if q else 300,
                        bounds="old layouts three levels deep"))
    obs.append(dict(name="history", fn=history(["FunctionNode", "RandomGeneratorNode", "ListNode", "DictNode"], 3 if q else 4),
                    time=60 if q else 300, bounds="3 (4) archives of any protocol (the first up to current+1) in one process"))
    light = [n for n in NAMES if n not in HEAVY]
    for i, g in enumerate((light[:6], light[6:], HEAVY)):
        obs.append(dict(name=f"objects-{i}", fn=objects(list(g)), time=60,
                        bounds="dumped objects (" + ", ".join(g) + ") rewritten into the layouts of protocol 0..current-1; every "
                               "loader dump emits is registered"))
    return obs


def prepare():
    arch.prepare()


def prepare_replay():
    prepare()
