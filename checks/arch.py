"""Builder of skops archives for harnesses (runs symbolically and in the replay).

A *spine* is a path of nodes from the root; each spine node has a symbolic kind, a symbolic
slot in which the next spine node sits, a symbolic (module, class) name; every other slot is
filled with a fixed valid filler."""
import io
import json
import os

import numpy as np

import canaries
import direct
import families
from observe import OBS

REPLAY = os.environ.get("SX_REPLAY") == "1"


def npy(v=None):
    b = io.BytesIO()
    np.save(b, np.arange(3.0) if v is None else v)
    return b.getvalue()


def npz():
    import scipy.sparse as sp
    b = io.BytesIO()
    sp.save_npz(b, sp.csr_matrix(np.eye(2)))
    return b.getvalue()


EVIL = b"csxcan_a\ndanger\n(tR."           # a pickle that calls a canary


def evil_npy():
    """.npy whose payload is a pickle (object dtype)"""
    b = io.BytesIO()
    np.lib.format.write_array_header_1_0(b, {"descr": "|O", "fortran_order": False, "shape": (1,)})
    return b.getvalue() + EVIL


def evil_npz():
    import zipfile
    b = io.BytesIO()
    with zipfile.ZipFile(io.BytesIO(npz())) as src, zipfile.ZipFile(b, "w") as z:
        for n in src.namelist():
            z.writestr(n, evil_npy() if n == "data.npy" else src.read(n))
    return b.getvalue()


MEMBERS = {"one.npy": npy(np.ones(1, dtype=np.intp)), "mt.npy": npy(np.arange(624, dtype=np.uint32)),
           "a.npy": npy(), "a.npz": npz(), "a.bin": b"bytes", "p.npy": evil_npy(), "p.npz": evil_npz(),
           "p.pkl": EVIL}
FILES = ("a.bin", "a.npy", "a.npz", "p.npy", "p.npz", "p.pkl", "zz.none")
DEFAULT_FILE = {"NdArrayNode": "a.npy", "SparseMatrixNode": "a.npz", "BytesNode": "a.bin",
                "BytearrayNode": "a.bin"}
EVIL_JSON = "__import__('sxcan_a').danger()"


def pack(schema, protocol=2, members=None):
    schema = dict(schema)
    schema["protocol"] = protocol
    schema["_skops_version"] = "0"
    m = MEMBERS if members is None else members
    if REPLAY:
        import zipfile
        buf = io.BytesIO()
        with zipfile.ZipFile(buf, "w") as z:
            for n, d in m.items():
                z.writestr(n, d)
            z.writestr("schema.json", json.dumps(schema))
        return buf.getvalue()
    from symx import jsonm
    return jsonm.archive(schema, m)


class B:
    """Fillers with unique ids."""

    def __init__(self, first=1):
        self.n = first

    def id(self):
        self.n += 1
        return self.n

    def node(self, loader, module, cls, **kw):
        d = {"__class__": cls, "__module__": module, "__loader__": loader}
        for k, v in kw.items():
            d[k] = v
        d["__id__"] = self.id()
        return d

    def js(self, text):
        return self.node("JsonNode", "builtins", "str", content=text, is_json=True)

    def seq(self, items, loader="ListNode", cls="list"):
        return self.node(loader, "builtins", cls, content=items)

    def tup(self, items):
        return self.seq(items, "TupleNode", "tuple")

    def typ(self, name="str"):
        return self.node("TypeNode", "builtins", name)

    def dic(self, content, key_types=None, module="builtins", cls="dict"):
        if key_types is None:
            key_types = self.seq([self.typ() for _ in content])
        return self.node("DictNode", module, cls, content=content, key_types=key_types)


# kind -> slots in which another node may sit
SLOTS = {
    "DictNode": ["value", "value2", "keytypes", "keytype"],
    "DefaultDictNode": ["main", "default_factory"],
    "ListNode": ["item", "item2"],
    "SetNode": ["item", "item2"],
    "TupleNode": ["item", "item2"],
    "ObjectNode": ["content", "attr"],
    "ConstructorFromReduceNode": ["content", "arg"],
    "PartialNode": ["func", "args", "arg", "kwds", "kwd", "namespace"],
    "MethodNode": ["obj"],
    "OperatorFuncNode": ["attrs", "attr"],
    "NdArrayNode": ["item", "item2", "shape"],
    "MaskedArrayNode": ["data", "mask"],
    "DTypeNode": ["content"],
    "RandomStateNode": ["content"],
    "RandomGeneratorNode": ["bit_generator", "seed_seq"],
    "LossNode": ["args", "arg", "content"],
    "TreeNode": ["args", "arg", "content"],
    "QuantileForestNode": ["args", "arg", "content"],
}
LEAVES = ["FunctionNode", "TypeNode", "JsonNode", "BytesNode", "BytearrayNode", "SliceNode",
          "SparseMatrixNode", "NdArrayNode", "CachedNode", "FunctionNode0", "RandomGeneratorNode0",
          "ObjectNode", "NoSuchNode"]
KINDS = list(SLOTS)
DEFAULT_NAME = {
    "DictNode": ("builtins", "dict"), "DefaultDictNode": ("collections", "defaultdict"),
    "ListNode": ("builtins", "list"), "SetNode": ("builtins", "set"), "TupleNode": ("builtins", "tuple"),
    "ObjectNode": ("sklearn.linear_model._ridge", "Ridge"),
    "NdArrayNode": ("numpy", "ndarray"), "MaskedArrayNode": ("numpy.ma", "MaskedArray"),
    "DTypeNode": ("numpy", "dtype"), "RandomStateNode": ("numpy.random.mtrand", "RandomState"),
    "RandomGeneratorNode": ("numpy.random._generator", "Generator"),
    "LossNode": ("sklearn.linear_model._sgd_fast", "Hinge"), "TreeNode": ("sklearn.tree._tree", "Tree"),
    "FunctionNode": ("numpy", "sqrt"), "TypeNode": ("builtins", "int"),
}

STATE_OK = '{"bit_generator": "PCG64", "state": {"state": 5, "inc": 3}, "has_uint32": 0, "uinteger": 0}'
STATE_BAD = '{"bit_generator": "seed", "state": {"state": 5, "inc": 3}, "has_uint32": 0, "uinteger": 0}'


def make(b, kind, name, slot, child, extra):
    """State of a node of this kind; child sits in slot; extra: dict of symbolic details."""
    m, c = name
    if kind == "DictNode":
        content = {"k0": b.js("1"), "k1": b.js('"x"')}
        kt = [b.typ(), b.typ()]
        if slot == "value":
            content["k0"] = child
        elif slot == "value2":
            content["k1"] = child
        elif slot == "keytype":
            kt[0] = child
        ktn = child if slot == "keytypes" else b.seq(kt)
        return b.node(kind, m, c, content=content, key_types=ktn)
    if kind == "DefaultDictNode":
        main = child if slot == "main" else b.dic({"k": b.js("1")})
        df = child if slot == "default_factory" else b.typ("list")
        return b.node(kind, m, c, content={"main": main, "default_factory": df})
    if kind in ("ListNode", "SetNode", "TupleNode"):
        if slot == "item":
            items = [child, b.js("2")]
        elif slot == "item2":
            items = [b.js("2"), child]
        else:
            items = [b.js("2")]
        return b.node(kind, m, c, content=items)
    if kind == "ObjectNode":
        if slot == "content":
            return b.node(kind, m, c, content=child)
        if slot == "attr":
            return b.node(kind, m, c, content=b.dic({"alpha": child}))
        if extra.get("content", False):
            return b.node(kind, m, c, content=b.dic({"alpha": b.js("1")}))
        return b.node(kind, m, c)
    if kind == "ConstructorFromReduceNode":
        return b.node(kind, m, c, content=child if slot == "content" else
                      b.tup([child if slot == "arg" else b.js("1")]))
    if kind == "PartialNode":
        return b.node(kind, m, c, content={
            "func": child if slot == "func" else b.node("FunctionNode", "numpy", "sqrt"),
            "args": child if slot == "args" else b.tup([child] if slot == "arg" else [b.js("1")]),
            "kwds": child if slot == "kwds" else b.dic({"x": child if slot == "kwd" else b.js("1")}),
            "namespace": child if slot == "namespace" else b.js("null")})
    if kind == "MethodNode":
        fn = extra["func"]
        return b.node(kind, m, c, content={
            "func": fn,
            "obj": child if slot == "obj" else b.node("ObjectNode", "sxcan_a", "Danger")})
    if kind == "OperatorFuncNode":
        return b.node(kind, m, c, attrs=child if slot == "attrs" else
                      b.tup([child if slot == "attr" else b.js('"real"')]))
    if kind == "NdArrayNode":
        if slot in ("item", "item2", "shape"):
            items = [b.js("1"), b.js("2")]
            if slot == "item":
                items[0] = child
            elif slot == "item2":
                items[1] = child
            return b.node(kind, m, c, type="json", content=items,
                          shape=child if slot == "shape" else b.tup([b.js("2")]))
        return b.node(kind, m, c, type="numpy", file=extra.get("file", "a.npy"))
    if kind == "MaskedArrayNode":
        return b.node(kind, m, c, content={
            "data": child if slot == "data" else b.node("NdArrayNode", "numpy", "ndarray", type="numpy", file="a.npy"),
            "mask": child if slot == "mask" else b.js("false")})
    if kind == "DTypeNode":
        return b.node(kind, m, c, content=child if slot == "content" else
                      b.node("NdArrayNode", "numpy", "ndarray", type="numpy", file="a.npy"))
    if kind == "RandomStateNode":
        return b.node(kind, m, c, content=child if slot == "content" else b.dic({
            "bit_generator": b.js('"MT19937"'), "has_gauss": b.js("0"), "gauss": b.js("0.0"),
            "state": b.dic({"key": b.node("NdArrayNode", "numpy", "ndarray", type="numpy", file="mt.npy"),
                            "pos": b.js("3")})}))
    if kind == "RandomGeneratorNode":
        st = STATE_BAD if extra.get("rng_bad", False) else STATE_OK
        return b.node(kind, m, c, content={
            "bit_generator": child if slot == "bit_generator" else b.js(st),
            "seed_seq": child if slot == "seed_seq" else b.dic({"entropy": b.js("1")})})
    if kind == "RandomGeneratorNode0":
        return b.node("RandomGeneratorNode", m, c, content={"bit_generator": json.loads(
            STATE_BAD if extra.get("rng_bad", False) else STATE_OK)})
    if kind in ("LossNode", "TreeNode", "QuantileForestNode"):
        arg = [child if slot == "arg" else b.js("1.0")]
        if kind == "TreeNode":
            arg = [child if slot == "arg" else b.js("1"),
                   b.node("NdArrayNode", "numpy", "ndarray", type="numpy", file="one.npy"), b.js("1")]
        args = child if slot == "args" else b.tup(arg)
        content = child if slot == "content" else b.dic({})
        n = b.node(kind, m, c, content=content)
        n["__reduce__"] = {"args": args}
        return n
    if kind in ("FunctionNode", "TypeNode", "NoSuchNode"):
        return b.node(kind, m, c)
    if kind == "FunctionNode0":
        return b.node("FunctionNode", "builtins", "function", content={"module_path": m, "function": c})
    if kind == "JsonNode":
        return b.node(kind, m, c, content=EVIL_JSON if extra.get("evil", False) else '{"a": [1, "b"]}',
                      is_json=True)
    if kind in ("BytesNode", "BytearrayNode"):
        return b.node(kind, m, c, file=extra.get("file", "a.bin"))
    if kind == "SliceNode":
        return b.node(kind, m, c, content={"start": 1, "stop": None, "step": 2})
    if kind == "SparseMatrixNode":
        return b.node(kind, m, c, type="scipy", file=extra.get("file", "a.npz"))
    if kind == "CachedNode":
        n = b.node(kind, m, c)
        n["__id__"] = extra.get("ref", 2)
        return n
    raise AssertionError(kind)


# ---------------------------------------------------------------------- names
CANARY = [("sxcan_a", "Danger"), ("sxcan_a", "danger"), ("sxcan_a", "Plain"), ("sxcan_b", "Danger"),
          ("sxcan_b", "danger")]
FOREIGN = [("builtins", "hex"), ("os", "getpid"), ("operator", "attrgetter"), ("operator", "add"),
           ("functools", "partial"), ("builtins", "type")]
DEFAULTS = [("builtins", "list"), ("builtins", "dict"), ("builtins", "str"), ("builtins", "int"),
            ("numpy", "ndarray"), ("numpy", "float64"), ("numpy", "sqrt"), ("collections", "OrderedDict"),
            ("sklearn.linear_model._ridge", "Ridge"), ("scipy.special._ufuncs", "expit"),
            ("sklearn.tree._tree", "Tree"), ("sklearn.linear_model._sgd_fast", "Hinge")]
CROSS = [("foo", "attrgetter"), ("sxcan_a", "attrgetter"), ("numpy", "Danger"), ("sxcan_a", "list"),
         ("sxcan_a", "Ridge"), ("sxcan_a", "dict")]
MISLEADING = ["sxcan_a", "sxcan_a.", "Danger", "danger", "sxcan_a.Dang", "a.Danger", "sxcan_a.danger ",
              "SXCAN_A.DANGER", "sxcan_a.Danger.run", "sxcan_a.Plain.run", "sxcan_a.Danger.prop",
              "sxcan_a.method", "builtins.method", "sxcan_a.*", "builtins.str.format", "zzz"]


def full(p):
    return p[0] + "." + p[1]


_TAB = {}


def table(pairs):
    """Sorted name table of pairs; registers the names with the observer."""
    key = tuple(pairs)
    r = _TAB.get(key)
    if r is None:
        ps = tuple(sorted(set(key), key=full))
        OBS.watch.update(ps)
        OBS.wmods.update([p[0] for p in ps])
        r = _TAB[key] = (ps, tuple([p[0] for p in ps]), tuple([p[1] for p in ps]),
                         tuple([str(k) for k in range(len(ps))]))
    return r


table._sx_direct = True


def name(ctx, label, pairs):
    """Symbolic (module, class) drawn from pairs (one index)."""
    ps, ms, cs, ks = table(pairs)
    i = ctx.enum(label, ks)
    return _split(i, ps, ms, cs)


def _split(i, ps, ms, cs):
    if REPLAY or not direct.issym(i):
        return ps[int(i)]
    from symx.values import SymEnum
    return SymEnum(i._i, ms, i._ci), SymEnum(i._i, cs, i._ci)


_split._sx_direct = True


FUNCS = ["run", "prop", "__class__", "__init__", "format"]
OBS.watch.update(FUNCS)
OBS.watch.add(("numpy.random", "seed"))


def details(ctx, label, kind, files=FILES):
    """Symbolic details of a node that are not its name."""
    e = {}
    if kind == "MethodNode":
        e["func"] = ctx.enum(label + ".func", tuple(sorted(FUNCS)))
    elif kind in ("RandomGeneratorNode", "RandomGeneratorNode0"):
        e["rng_bad"] = True if ctx.bool(label + ".rng") else False
    elif kind == "ObjectNode":
        e["content"] = True if ctx.bool(label + ".content") else False
    elif kind in ("NdArrayNode", "SparseMatrixNode", "BytesNode", "BytearrayNode"):
        e["file"] = ctx.enum(label + ".file", files or (DEFAULT_FILE[kind],))
    elif kind == "JsonNode":
        e["evil"] = True if ctx.bool(label + ".evil") else False
    elif kind == "CachedNode":
        e["ref"] = ctx.int(label + ".ref", 2, 5)
    return e


def spine(ctx, b, levels, leaves, names, outer=None, files=None):
    """levels: list of kind lists (root first); leaves: kinds at the end.
    Returns the state; symbolic choices k0,s0,n0,... are recorded on ctx."""
    picks = []
    for i, kinds in enumerate(levels):
        k = ctx.pick(f"k{i}", kinds)
        s = ctx.pick(f"s{i}", SLOTS[k])
        picks.append((k, s, name(ctx, f"n{i}", (outer or names)(k)), details(ctx, f"d{i}", k, None)))
    k = ctx.pick("leaf", leaves)
    st = make(b, k, name(ctx, "nleaf", names(k)), None, None, details(ctx, "dleaf", k, files if files else None if levels else FILES))
    states = [st]
    for k, s, n, e in reversed(picks):
        st = make(b, k, n, s, st, e)
        states.insert(0, st)
    return st, states


def tnames(pairs, extra):
    r = _TAB.get(("T", pairs, extra))
    if r is None:
        r = _TAB[("T", pairs, extra)] = tuple(sorted(
            {full(p) for p in pairs} | set(MISLEADING) | set(extra)))
    return r


tnames._sx_direct = True


def trusted(ctx, n, pairs, extra=(), lo=0):
    """A symbolic trusted list of up to n entries over all names and misleading variants."""
    cand = tnames(tuple(pairs), tuple(extra))
    k = lo + ctx.choice("nT", n - lo + 1) if n > lo else n
    return [ctx.enum(f"T{i}", cand) for i in range(k)]


ODD = [("sxcan_a", "_Danger"), ("sxcan_a", "Danger2"), ("sxcan_a", "_danger"), ("sxcan_a", "danger_"),
       ("sxcan_p._sub", "Danger"), ("sxcan_p._sub", "_Danger"), ("sxcan_p", "Danger"), ("sxcan_a", "Danger"),
       ("sxcan_a", "danger")]
# characters a trusted name may be made of in the obligations with free strings
NAMEALPHA = "".join(chr(i) for i in range(32, 127)) + "\n\t\xa0\u017f\u2024"


def free_name(ctx, label, pair, d):
    """Any string about as long as the name of pair, or shorter by what a component of it takes."""
    n = len(full(pair))
    return ctx.str(label, NAMEALPHA, max(1, n - d - 6), n + d)


def write(path, data):
    with open(path, "wb") as f:
        f.write(data)


write._sx_direct = True


def prepare():
    import builtins
    import operator
    import observe
    for f, names in ((builtins.hex, ["builtins.hex"]), (os.getpid, ["os.getpid", "posix.getpid"]),
                     (operator.attrgetter, ["operator.attrgetter"]), (operator.add, ["operator.add"])):
        OBS.watch_call(f, names)
    for n in dir(np.random):
        f = getattr(np.random, n)
        if callable(f) and not isinstance(f, type):
            OBS.watch_call(f, ["numpy.random." + n])
    observe.install()
    canaries.setup()


def begin():
    """Start of a path: no canary module imported, empty ledger."""
    canaries.reset()
    if not REPLAY:
        from symx import jsonm
        jsonm.reset_schemas()


# ---------------------------------------------------------------------- oracles
def fam(m, c):
    """The name resolves to a member of a documented default-trusted family."""
    if REPLAY:
        return families.family_name(m, c)
    from symx.values import lift
    return lift(families.family_name, m, c)


def disj(xs):
    r = False
    for x in xs:
        r = r | x
    return r


def in_list(x, xs):
    return disj([x == y for y in xs])


class Wide:
    """Containers of many nodes, two of which are given."""
    KINDS = ["ListNode", "TupleNode", "SetNode", "DictNode", "keys", "ObjectNode", "NdArrayNode", "DTypeNode",
             "TreeNode", "PartialNode", "kwds", "OrderedDict", "DefaultDictNode", "OperatorFuncNode"]

    @staticmethod
    def build(b, kind, n, put):
        """put: {position: node}"""
        items = [put[i] if i in put else (b.typ() if kind == "keys" else b.js("1")) for i in range(n)]
        if kind in ("ListNode", "TupleNode", "SetNode"):
            return b.seq(items, kind, {"ListNode": "list", "TupleNode": "tuple", "SetNode": "set"}[kind])
        if kind == "keys":
            return b.dic({f"k{i}": b.js("1") for i in range(n)}, b.seq(items))
        d = {f"k{i}": x for i, x in enumerate(items)} if kind in (
            "DictNode", "ObjectNode", "kwds", "OrderedDict", "DefaultDictNode") else {}
        if kind == "DictNode":
            return b.dic(d)
        if kind == "OrderedDict":
            return b.dic(d, None, "collections", "OrderedDict")
        if kind == "ObjectNode":
            return make(b, kind, DEFAULT_NAME[kind], "content", b.dic(d), {})
        if kind == "NdArrayNode":
            return b.node(kind, "numpy", "ndarray", type="json", content=items, shape=b.tup([b.js(str(n))]))
        if kind == "DTypeNode":
            return make(b, kind, DEFAULT_NAME[kind], "content", b.tup(items), {})
        if kind == "TreeNode":
            return make(b, kind, DEFAULT_NAME[kind], "args", b.tup(items), {})
        if kind == "PartialNode":
            return make(b, kind, ("functools", "partial"), "args", b.tup(items), {})
        if kind == "kwds":
            return make(b, "PartialNode", ("functools", "partial"), "kwds", b.dic(d), {})
        if kind == "DefaultDictNode":
            return make(b, kind, DEFAULT_NAME[kind], "main", b.dic(d), {})
        return make(b, "OperatorFuncNode", ("operator", "attrgetter"), "attrs", b.tup(items), {})


def wide(ctx, kinds, n1, names, leaf=("TypeNode", "ObjectNode", "FunctionNode")):
    """A container with many nodes, one untrusted node at any place and another one at the start or the end."""
    b = B()
    kind = ctx.pick("kind", kinds)
    n = ctx.pick("n", n1)
    p = ctx.choice("pos", n)
    put = {0: make(b, leaf[0], names[1], None, None, {})} if ctx.bool("first") else \
        {n - 1: make(b, leaf[0], names[1], None, None, {})}
    put[p] = make(b, ctx.pick("leaf", leaf), names[0], None, None, {})
    st = Wide.build(b, kind, n, put)
    return st


def chain(ctx, b, kinds, n, leaf):
    """leaf below n levels of one kind"""
    kind = ctx.pick("kind", kinds)
    st = leaf
    for i in range(n):
        s = SLOTS[kind]
        st = make(b, kind, DEFAULT_NAME.get(kind, ("functools", "partial")), s[(i * 7) % len(s)] if kind not in (
            "DictNode", "PartialNode") else s[0 if kind == "DictNode" else 2], st, {"func": "run"})
    return st


def vouched_module(m, T):
    """Some name of the trusted list belongs to module m (or m is no canary module)."""
    if REPLAY or not direct.issym(m):
        return disj([t.startswith(m + ".") for t in T])
    r = not_canary(m)
    for k in canaries.NAMES:
        r = r | ((m == k) & disj([t.startswith(k + ".") for t in T]))
    return r


def not_canary(m):
    r = True
    for k in canaries.NAMES:
        r = r & (m != k)
    return r


def is_canary(m):
    return m.startswith("sxcan")


def owner_name(o):
    k = o if isinstance(o, type) else type(o)
    return k.__module__ + "." + k.__qualname__


class Vouch:
    """Decides every resolution event against T and the documented families."""

    def __init__(self, ctx, T):
        self.ctx, self.T = ctx, T
        self.n = 0

    def event(self, kind, a, b=None):
        self.n += 1
        ctx, T = self.ctx, self.T
        if kind == "import":
            ctx.check(vouched_module(a, T) | not_canary(a), "a module nobody vouched for is imported")
        elif kind == "call":
            ctx.check(disj([in_list(x, T) for x in a]), "a callable nobody vouched for is called")

    def ledger(self):
        ctx, T = self.ctx, self.T
        for what, nm in canaries.ledger():
            if what == "import":
                ctx.check(vouched_module(nm, T), "a module nobody vouched for was imported")
            else:
                ctx.check(in_list(nm, T), "code nobody vouched for was run")

    def result(self, res, pairs):
        ctx, T = self.ctx, self.T
        for kind, nm, o in families.code_objects(res):
            al = [nm] + families.aliases(o, pairs)
            ctx.check(disj([in_list(x, T) for x in al]),
                      "the result contains an object or an instance of a type nobody vouched for")


def load_guarded(data, T, vouch, pairs):
    """loads(data, T) under observation; returns (outcome, result)"""
    from skops.io import loads
    OBS.start(vouch.event)
    res = None
    try:
        res = loads(data, trusted=T)
        out = "ok"
    except Exception as exc:
        out = type(exc).__name__
    OBS.finish()
    vouch.ledger()
    if out == "ok":
        vouch.result(res, pairs)
    return out, res


prepare._sx_direct = True
