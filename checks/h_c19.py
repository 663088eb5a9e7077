"""C19: malformed archives fail cleanly."""
import copy
import io
import json
import os
import zipfile

import arch
import direct
import guard
import numpy as np
from arch import B, DEFAULT_NAME, KINDS, LEAVES, SLOTS
from hlib import scratch_dir

ASSUMPTIONS = [
    "schema-level corruption: archives of every node kind in which one or two JSON values (any position) are dropped "
    "or replaced by values of other types, ids and protocol are arbitrary integers, ids repeat or form cycles, "
    "members are missing, swapped or malformed (table of malformed .npy/.npz/pickle members)",
    "byte-level corruption (truncation and single flipped bytes of whole archives) is checked at enumerated positions "
    "of a handful of archives: the zip and .npy parsers of the standard library and numpy are not encoded",
    "promptness: the number of calls of functions of skops.io is at most 300 n + 12 n^2 for an archive of n nodes (for "
    "visualize 300000 more, as it walks cycles up to the recursion limit, which is set to 500 levels), and the number of rows at most 2000 + 6 n + n^2 / 4; "
    "time spent inside of native code is bounded by the time limit of the worker only",
    "T holds every name that occurs in the archive, so that everything is constructed",
]
KS = [k for k in sorted(set(KINDS + LEAVES))]


def bad_members():
    """Malformed members; the keys are the names they get."""
    def save(f, *a):
        b = io.BytesIO()
        f(b, *a)
        return b.getvalue()
    ok = arch.npy()
    m = {"b0.npy": b"", "b1.npy": ok[:-5], "b2.npy": ok[:20], "b3.npy": b"\x93NUMPY\x09\x00" + ok[8:],
         "b4.npy": ok.replace(b"(3,)", b"(9,)"), "b5.npy": ok.replace(b"<f8", b"|O8"), "b6.npy": ok.replace(b"<f8", b"|V0"),
         "b7.npy": ok.replace(b"(3,)", b"(-3"), "b8.npy": ok.replace(b"'descr'", b"'xescr'"), "b9.npy": b"PK\x03\x04" + ok,
         "c0.npy": arch.npz(), "c1.npy": save(np.save, np.array(5)), "c2.npy": save(np.save, np.zeros((0, 3))),
         "c3.npy": save(np.save, np.array(["a", "b"])), "c4.npy": save(np.save, np.zeros(2, dtype=[("a", "i4")]))}

    def npz(**k):
        return save(lambda b: np.savez(b, **k))
    z = dict(indices=np.array([0, 1]), indptr=np.array([0, 1, 2]), format=np.array(b"csr"), shape=np.array([2, 2]),
             data=np.ones(2))
    m["d0.npz"] = npz(**{k: v for k, v in z.items() if k != "format"})
    m["d1.npz"] = npz(**{**z, "indices": np.array([7, -9])})
    m["d2.npz"] = npz(**{**z, "indptr": np.array([0, 900, 2])})
    m["d3.npz"] = npz(**{**z, "shape": np.array([2, 2, 2])})
    m["d4.npz"] = npz(**{**z, "format": np.array(b"zzz")})
    m["d5.npz"] = npz(**{**z, "format": np.array("csr")})
    m["d6.npz"] = npz(**{**z, "data": np.ones(1)})
    m["d7.npz"] = npz(**{**z, "format": np.array(b"dia")})
    m["d8.npz"] = npz(**{**z, "format": np.array(b"coo")})
    m["d9.npz"] = npz(**{**z, "shape": np.array([-1, 2])})
    m["e0.npz"] = arch.npz()[:60]
    m["e1.npz"] = b""
    m["e2.npz"] = npz(**{**z, "format": np.array(b"bsr")})
    return m


bad_members._sx_direct = True
MEMBERS = {}


def members():
    if not MEMBERS:
        MEMBERS.update(arch.MEMBERS)
        MEMBERS.update(bad_members())
    return MEMBERS


members._sx_direct = True


def names_in(st, out):
    if isinstance(st, dict):
        m, c = st.get("__module__"), st.get("__class__")
        if type(m) is str and type(c) is str:
            out.add(m + "." + c)
            f = st.get("content")
            if isinstance(f, dict) and isinstance(f.get("obj"), dict):
                out.add(f"{f['obj'].get('__module__')}.{f['obj'].get('__class__')}.{f.get('func')}")
        for v in st.values():
            names_in(v, out)
    elif isinstance(st, (list, tuple)):
        for v in st:
            names_in(v, out)
    return out


def count(st):
    if isinstance(st, dict):
        return 1 + sum(count(v) for v in st.values())
    if isinstance(st, (list, tuple)):
        return 1 + sum(count(v) for v in st)
    return 1


names_in._sx_direct = count._sx_direct = True


class Rows:
    """The sink of visualize: consumes as many rows as an archive of n nodes may have."""

    def __init__(self, most):
        self.most = most

    def __call__(self, nodes, *a, **k):
        n = 0
        for _ in nodes:
            n += 1
            if n > self.most:
                raise guard.Hang()


# walking a cycle ends with a RecursionError: as many levels as DEPTH allows, with an audit of the rest of the archive each
VIS = 300000
DEPTH = 500
OPS = ["get_untrusted_types", "visualize", "loads", "load"]


def attempt(ctx, data, ops, T, limit):
    """Every operation ends with a value or an ordinary exception and leaves the process alone."""
    from skops.io import get_untrusted_types, load, loads, visualize
    d = scratch_dir()
    path = os.path.join(d, "in.skops")
    depth = direct.stack_depth() + DEPTH
    if "load" in ops or "visualize-file" in ops:
        arch.write(path, data)
    before = guard.state([d, os.getcwd()])
    res = []
    for op in ops:
        fs = {"get_untrusted_types": lambda: get_untrusted_types(data=data),
              "visualize": lambda: visualize(data, trusted=T, sink=Rows(2000 + limit // 50)),
              "loads": lambda: loads(data, trusted=T),
              "load": lambda: load(path, trusted=T)}
        guard.watch_files()
        old = guard.set_limit(depth)
        guard.start(limit + (VIS if op == "visualize" else 0))
        try:
            fs[op]()
            r = "ok"
        except Exception as exc:
            r = type(exc).__name__
        except guard.Hang:
            r = "hang"
        except (SystemExit, KeyboardInterrupt, GeneratorExit) as exc:
            r = "!" + type(exc).__name__
        finally:
            guard.stop()
            left = guard.set_limit(old)
        files = guard.touched()
        ctx.check(r != "hang", op + ": does not end promptly")
        ctx.check(not r.startswith("!"), lambda: op + ": ends with " + r[1:])
        ctx.check(not files, lambda: op + ": touches a file or process: " + files[0].split("/")[0])
        after = guard.state([d, os.getcwd()])
        changed = guard.diff(before, after) + (["recursion limit"] if left != depth else [])
        ctx.check(not changed, lambda: op + ": changes process-wide state: " + ", ".join(changed))
        res.append(r)
    ctx.outcome = "ended"


def bound(n):
    return 300 * n + 12 * n * n


# ------------------------------------------------------------- confused values
def paths(st, pre=()):
    """Every position of a JSON value below st."""
    out = []
    if isinstance(st, dict):
        for k in st:
            out.append(pre + (k,))
            out += paths(st[k], pre + (k,))
    elif isinstance(st, (list, tuple)):
        for i in range(len(st)):
            out.append(pre + (i,))
            out += paths(st[i], pre + (i,))
    return out


paths._sx_direct = True


def values(ctx, label, short):
    k = ctx.pick(label, ["absent", "int", "str", "none", "true", "float", "list", "dict", "node", "big"] + (
        [] if short else ["neg", "empty", "strs", "nan", "deeplist", "dictnode", "unhashable", "bytes"]))
    if k == "int":
        return k, ctx.int(label + ".i", -3, 12)
    if k == "str":
        return k, ctx.str(label + ".s", "aN/.\x00\u00e9", 0, 2)
    v = {"absent": None, "none": None, "true": True, "float": 1.5, "list": [1, "a"], "dict": {"a": 1}, "empty": "",
         "node": {"__class__": "int", "__module__": "builtins", "__loader__": "TypeNode", "__id__": 77},
         "big": 2 ** 70, "neg": -(2 ** 40), "strs": ["a", "b"], "nan": float("nan"), "deeplist": [[[[[]]]]],
         "dictnode": {"__class__": "dict", "__module__": "builtins", "__loader__": "DictNode", "content": {}, "__id__": 2,
                      "key_types": {"__class__": "list", "__module__": "builtins", "__loader__": "ListNode", "content": []}},
         "unhashable": {"a": [1, {}]}, "bytes": "\\u0000\ud800"}[k]
    return k, copy.deepcopy(v)


def put(st, path, kind, v):
    for p in path[:-1]:
        st = st[p]
    if kind == "absent":
        if isinstance(st, list) or isinstance(st, dict):
            del st[path[-1]]
    else:
        st[path[-1]] = v


def lists(st):
    """tuples become lists, as JSON would have it"""
    if isinstance(st, dict):
        return {k: lists(v) for k, v in st.items()}
    if isinstance(st, (list, tuple)):
        return [lists(v) for v in st]
    return st


def single(kinds, nmut, short, outer=None):
    def fn(ctx):
        arch.begin()
        b = B()
        kind = ctx.pick("kind", kinds)
        nm = DEFAULT_NAME.get(kind, ("functools", "partial") if kind == "PartialNode" else
                              ("scipy.sparse", "csr_matrix") if kind == "SparseMatrixNode" else
                              ("operator", "attrgetter") if kind == "OperatorFuncNode" else
                              ("builtins", "list") if kind == "ConstructorFromReduceNode" else ("builtins", "str"))
        st = lists(arch.make(b, kind, nm, None, None, {"func": "run", "ref": 1, "content": True,
                                                       "file": arch.DEFAULT_FILE.get(kind, "a.bin")}))
        if outer:
            o = ctx.pick("outer", outer)
            st = lists(arch.make(b, o, DEFAULT_NAME.get(o, ("functools", "partial")), SLOTS[o][0 if o == "ListNode" else 1], st, {}))
        T = sorted(names_in(st, set()))
        for j in range(nmut):
            ps = paths(st)
            p = ps[ctx.choice(f"at{j}", len(ps))]
            k, v = values(ctx, f"v{j}", short)
            put(st, p, k, v)
        attempt(ctx, arch.pack(st, 2, members()), OPS[:3], T, bound(60))
    return fn


def top(ctx):
    """The schema itself and its own keys."""
    arch.begin()
    b = B()
    what = ctx.pick("what", ["protocol", "version", "schema", "member", "nomember", "twice"])
    st = b.seq([b.js("1"), arch.make(b, "NdArrayNode", DEFAULT_NAME["NdArrayNode"], None, None, {})])
    T = ["builtins.list"]
    if what == "protocol":
        k, v = values(ctx, "v", False)
        data = repack(st, v if k != "absent" else None, drop="protocol" if k == "absent" else None)
    elif what == "version":
        k, v = values(ctx, "v", False)
        data = repack(st, 2, version=v)
    elif what == "schema":
        data = zipped({"schema.json": ctx.pick("text", ["", "[]", "1", "null", "\"a\"", "{", "{}", "[[[[", "{\"a\": 1}", "NaN", "\ufeff{}",
                                                      "[" * 3000, "{\"a\":" * 3000, "[" * 90000, "\x00"])})
    elif what == "nomember":
        data = zipped({"other.json": "{}"})
    elif what == "twice":
        data = zipped({"schema.json": json.dumps(dict(st, protocol=2)), "schema.json ": "{}", "../x": "a", "/abs/y": "b", "d/": ""})
    else:
        data = arch.pack(st, 2, {})
    attempt(ctx, data, OPS, T, bound(60))


def repack(st, protocol, drop=None, version="0"):
    st = dict(st)
    st["protocol"] = protocol
    if drop:
        del st[drop]
    st["_skops_version"] = version
    if arch.REPLAY:
        d = dict(members())
        d["schema.json"] = json.dumps(st)
        return zipped(d)
    from symx import jsonm
    return jsonm.archive(st, members())


def zipped(d):
    buf = io.BytesIO()
    with zipfile.ZipFile(buf, "w") as z:
        for n, v in d.items():
            z.writestr(n, v)
    return buf.getvalue()


zipped._sx_direct = True


def files(ctx):
    """Members of the wrong sort or malformed."""
    arch.begin()
    b = B()
    kind = ctx.pick("kind", ["NdArrayNode", "SparseMatrixNode", "BytesNode", "BytearrayNode", "DTypeNode", "MaskedArrayNode",
                             "RandomStateNode", "TreeNode"])
    f = ctx.pick("file", sorted(members()) + ["", "/", "../x", "schema.json", "none"])
    cls = ctx.pick("class", [None, ("numpy", "float64"), ("numpy", "matrix"), ("scipy.sparse", "csr_matrix"), ("builtins", "dict")])
    nm = cls or DEFAULT_NAME.get(kind, ("builtins", "bytes"))
    if kind in ("NdArrayNode", "SparseMatrixNode", "BytesNode", "BytearrayNode"):
        st = arch.make(b, kind, nm, None, None, {"file": f})
    else:
        leaf = arch.make(b, "NdArrayNode", cls or DEFAULT_NAME["NdArrayNode"], None, None, {"file": f})
        if kind == "RandomStateNode":
            st = arch.make(b, kind, DEFAULT_NAME[kind], "content", b.dic({
                "bit_generator": b.js('"MT19937"'), "has_gauss": b.js("0"), "gauss": b.js("0.0"),
                "state": b.dic({"key": leaf, "pos": b.js(ctx.pick("pos", ["3", "-5", "9999", "null"]))})}), {})
        elif kind == "TreeNode":
            st = arch.make(b, kind, DEFAULT_NAME[kind], "args", b.tup([b.js(ctx.pick("nf", ["1", "-1"])), leaf, b.js(
                ctx.pick("no", ["1", "0", "-1", "5", "\"a\""]))]), {})
        else:
            st = arch.make(b, kind, DEFAULT_NAME[kind], SLOTS[kind][0], leaf, {})
    T = sorted(names_in(lists(st), set()))
    attempt(ctx, arch.pack(st, 2, members()), OPS[:3], T, bound(60))


# --------------------------------------------------------------- ids and depth
def wired(kinds, n, hi):
    """n nested/adjacent nodes with arbitrary ids (repeated, cyclic, unknown)."""
    def fn(ctx):
        arch.begin()
        b = B(50)
        st = b.js("1")
        for i in range(n):
            k = ctx.pick(f"k{i}", kinds)
            s = SLOTS[k]
            st = arch.make(b, k, DEFAULT_NAME.get(k, ("functools", "partial")), ctx.pick(f"s{i}", s), st, {"func": "run"})
            st["__id__"] = ctx.int(f"id{i}", 0, hi)
        ref = arch.make(b, ctx.pick("ref", ["CachedNode", "ListNode"]), ("builtins", "list"), None, None, {"ref": ctx.int("rid", 0, hi)})
        st = b.seq([st, ref] if ctx.bool("after") else [ref, st])
        st["__id__"] = ctx.int("root", 0, hi)
        T = ["functools.partial", "builtins.str", "types.MethodType"] + [x[0] + "." + x[1] for x in DEFAULT_NAME.values()]
        attempt(ctx, arch.pack(st, 2, members()), OPS[:3], T, bound(60))
    return fn


TWOSLOT = {"ListNode": ("item", "item2"), "TupleNode": ("item", "item2"), "SetNode": ("item", "item2"),
           "DictNode": ("value", "value2"), "DefaultDictNode": ("main", "default_factory"), "PartialNode": ("func", "namespace"),
           "NdArrayNode": ("item", "item2"), "MaskedArrayNode": ("data", "mask"), "RandomGeneratorNode": ("bit_generator", "seed_seq"),
           "TreeNode": ("args", "content"), "keys": ("value", "keytypes")}


def again(b, x):
    """A second reference to node x, as dump writes it."""
    return copy.copy(x) if not isinstance(x, dict) else {k: x[k] for k in x}


def shared(kinds, depths, ops):
    """Every level refers twice to the next one."""
    def fn(ctx):
        arch.begin()
        b = B()
        kind = ctx.pick("kind", kinds)
        n = ctx.pick("depth", depths)
        st = b.js("1")
        for i in range(n):
            k = "DictNode" if kind == "keys" else kind
            s1, s2 = TWOSLOT[kind]
            if ctx.bool("swap") if i == 0 else False:
                s1, s2 = s2, s1
            ref = b.node("ListNode", "builtins", "list", content=[])
            ref["__id__"] = st["__id__"]
            new = arch.make(b, k, DEFAULT_NAME.get(k, ("functools", "partial")), s1, st, {"func": "run"})
            # the second slot: a reference by id
            other = arch.make(B(10 ** 6), k, ("x", "y"), s2, ref, {"func": "run"})
            if "content" in new and isinstance(new["content"], dict) and isinstance(other.get("content"), dict) and "__loader__" not in new["content"]:
                for key in new["content"]:
                    if new["content"][key] is not st and other["content"].get(key) is ref:
                        new["content"][key] = ref
                if kind == "keys":
                    new["key_types"] = ref
            elif isinstance(new.get("content"), list):
                new["content"] = [st, ref]
            elif kind == "TreeNode":
                new["content" if s2 == "content" else "__reduce__"] = other["content" if s2 == "content" else "__reduce__"]
            st = new
        T = ["functools.partial", "numpy.ma.MaskedArray"] + [x[0] + "." + x[1] for x in DEFAULT_NAME.values()]
        attempt(ctx, arch.pack(st, 2, members()), ops, T, bound(8 * n + 8))
    return fn


def deep(kinds, depths):
    def fn(ctx):
        arch.begin()
        b = B()
        n = ctx.pick("depth", depths)
        kind = ctx.pick("kind", kinds)
        text = deeptext(kind, n)
        data = zipped({"schema.json": text})
        attempt(ctx, data, OPS, ["builtins.list"], bound(8 * n + 8))
    return fn


def deeptext(kind, n):
    """JSON text of n nested nodes, written without recursion."""
    k = {"ListNode": ("list", '"content": [', "]"), "DictNode": ("dict", '"key_types": {"__class__": "list", "__module__": '
                      '"builtins", "__loader__": "ListNode", "content": [{"__class__": "str", "__module__": "builtins", '
                      '"__loader__": "TypeNode"}]}, "content": {"a": ', "}"),
         "TupleNode": ("tuple", '"content": [', "]"), "raw": (None, "[", "]"),
         "ObjectNode": ("object", '"content": ', "")}[kind]
    if kind == "raw":
        return '{"protocol": 2, "__loader__": "JsonNode", "__class__": "str", "__module__": "builtins", "content": ' + "[" * n + "]" * n + "}"
    one = '{"__class__": "%s", "__module__": "builtins", "__loader__": "%s", "__id__": %d, %s%s'
    parts = [one % (k[0], kind, i + 1, '"protocol": 2, ' if i == 0 else "", k[1]) for i in range(n)]
    return "".join(parts) + '{"__class__": "str", "__module__": "builtins", "__loader__": "JsonNode", "content": "1"}' + (k[2] + "}") * n


deeptext._sx_direct = True


# ------------------------------------------------------------------- bytes
_whole = {}


def whole(nm):
    from skops.io import dumps
    if nm not in _whole:
        import scipy.sparse as sp
        obj = {"array": [np.arange(4.0), b"x"], "nested": {"a": [1, {"b": (2, "c")}], "f": np.sqrt},
               "sparse": sp.csr_matrix(np.eye(2))}[nm]
        _whole[nm] = dumps(obj)
    return _whole[nm]


def corrupt(data, how, at):
    at = min(at, len(data) - 1)
    if how == "truncate":
        return data[:at]
    if how == "flip":
        return data[:at] + bytes([data[at] ^ 0xff]) + data[at + 1:]
    if how == "zero":
        return data[:at] + bytes(min(8, len(data) - at)) + data[at + 8:]
    return data[:at] + b"\xff\xff\xff\x7f" + data[at:]


corrupt._sx_direct = True


def bytelevel(step):
    def fn(ctx):
        arch.begin()
        nm = ctx.pick("archive", ["array", "nested", "sparse"])
        data = whole(nm)
        at = ctx.choice("at", (len(data) + step - 1) // step) * step
        how = ctx.pick("how", ["truncate", "flip", "zero", "insert"])
        attempt(ctx, corrupt(data, how, at), OPS[:3], ["numpy.sqrt"], bound(60))
    return fn


def replay_abnormal(v, out):
    """A replay that dies of a signal is the violation itself."""
    if out.get("rc") is not None and out["rc"] < 0:
        return dict(violated=True, msg=f"the process dies of signal {-out['rc']}", sig=v["ob"] + ": the process dies")
    if out.get("timeout"):
        return dict(violated=True, msg="does not end", sig=v["ob"] + ": does not end")
    return None


def obligations(tier):
    q = tier == "quick"
    obs = [dict(name="top", fn=top, time=60, bounds="schema text, protocol and version of any JSON type, missing members")]
    obs.append(dict(name="files", fn=files, time=60 if q else 200, bounds="28 malformed or misplaced members for 8 kinds that read one"))
    for i in range(0, len(KS), 4):
        obs.append(dict(name=f"confused-{i}", fn=single(KS[i:i + 4], 1, q), time=60 if q else 300,
                        bounds="every JSON value of a node of any kind dropped or replaced by a value of another type"))
    if not q:
        for i in range(0, len(KS), 4):
            obs.append(dict(name=f"confused2-{i}", fn=single(KS[i:i + 4], 2, True), time=300,
                            bounds="two values dropped or replaced"))
            obs.append(dict(name=f"nested-{i}", fn=single(KS[i:i + 4], 1, False, ["ListNode", "DictNode", "ObjectNode"]), time=300,
                            bounds="the same below another container"))
    for k in (["ListNode", "DictNode", "ObjectNode"] if q else KINDS):
        obs.append(dict(name="wired-" + k, fn=wired([k] + ([] if q else ["ListNode", "PartialNode"]), 2, 3 if q else 4), time=40 if q else 250,
                        bounds="two nested nodes and a reference with ids 0..3 (4): repeated, cyclic, unknown"))
    two = list(TWOSLOT)
    eng = dict(max_steps=2000000)
    obs.append(dict(name="shared", fn=shared(two, [4, 22], ["get_untrusted_types", "loads"]), time=60, engine=eng,
                    bounds="4 and 22 levels (n nodes), each of which refers twice to the next one; 11 kinds"))
    obs.append(dict(name="shared-visualize", fn=shared(["ListNode"], [16], ["visualize"]), time=30, engine=eng,
                    bounds="visualize of 16 shared levels"))
    obs.append(dict(name="deep", fn=deep(["ListNode", "DictNode", "TupleNode", "ObjectNode", "raw"], [30, 300, 3000] if q else
                                         [30, 100, 300, 900, 3000, 20000, 90000]), time=60 if q else 250, engine=eng,
                    bounds="30..3000 (90000) nested nodes"))
    obs.append(dict(name="bytes", fn=bytelevel(31 if q else 3), time=40 if q else 250,
                    bounds="truncated, flipped, zeroed, inserted bytes at every 31st (3rd) position of 3 archives"))
    return obs


def prepare():
    arch.prepare()
    members()
    for nm in ("array", "nested", "sparse"):
        whole(nm)


def prepare_replay():
    prepare()
