"""C20: calls are independent of history and of concurrent calls."""
import hlib
import sched

sched.install()

import io  # noqa: E402
import os  # noqa: E402

import arch  # noqa: E402
import h_c08  # noqa: E402
import ident  # noqa: E402
import numpy as np  # noqa: E402
import objcls  # noqa: E402
import objs  # noqa: E402
import pristine  # noqa: E402
import zipcheck  # noqa: E402
from arch import B  # noqa: E402
from hlib import json_text  # noqa: E402

INSTRUMENT = ["objs", "objcls", "zipcheck", "h_c08"]
STMT_STEPS = True
TARGET = 100

ASSUMPTIONS = [
    "the first call of a process is reproduced by restoring every mutable object (containers, classes, instances, default "
    "arguments, closures, lru_caches) reachable from the modules of skops to what it was right after the import",
    "history: up to 2 (3) calls of the kinds dumps, loads, get_untrusted_types, visualize, card operations and parsing, "
    "successful or failing, on other or equal objects, whose loaded objects and cards are modified afterwards",
    "schedules: two real threads that are switched before any statement of skops' code (half of them close to a change of state "
    "that outlives a call, when there is one), at most twice; switches inside of a statement or of a library are not explored",
    "the counted ids of scikit-learn's diagrams are held constant; object ids and member names in dumps are ignored",
]


# ------------------------------------------------------------------ operations
# An operation is a function without arguments: builds its arguments, calls skops, returns its result
# in a form without ids; spoil modifies whatever mutable it got.
def outcome(f):
    try:
        return ["ok", f()]
    except Exception as exc:
        return ["raises", type(exc).__name__]


DUMP = ["list", "object", "array", "shared", "objarray", "sparse", "estimator", "gen", "partial", "defaultdict", "bad", "method", "cyclic", "type"]


def dump_value(k, v, other=False):
    a = np.arange(7.0) + 10 if other else np.arange(3.0)
    if k == "list":
        return [v, {"a": v, 2: (1,)}, b"x"]
    if k == "object":
        return objcls.Plain(a=v, b=[a])
    if k == "array":
        return a
    if k == "shared":
        return [a, {"k": a}, a, v]
    if k == "objarray":
        return objs.objarray((2, 1), [v, [a]])
    if k == "sparse":
        return [objs.sparse("csr", False, 0), v]
    if k == "estimator":
        return estimator(v)
    if k == "gen":
        return [np.random.default_rng(3), np.random.RandomState(4)]
    if k == "partial":
        return objs.functools.partial(np.add, a, k=v)
    if k == "defaultdict":
        return objs.put(objs.collections.defaultdict(list), ["a", 1], [lambda: v, lambda: a])
    if k == "bad":
        return [a, v, objcls.RaisingState(), a]
    if k == "method":
        return objcls.Plain(a=v).run
    if k == "cyclic":
        x = [a]
        x.append(x)
        return x
    return [int, objcls.Plain, np.float64(1), np.dtype("i4")]


def estimator(v):
    from sklearn.linear_model import LogisticRegression
    e = LogisticRegression(C=2)
    e.coef_ = np.arange(2.0)
    e.random_state = v
    return e


estimator._sx_direct = True


def op_dumps(ctx, l, kinds=DUMP):
    k = ctx.pick(l + ".x", kinds)
    v = value(ctx, l)
    other = True if ctx.bool(l + ".other") else False
    comp = ctx.pick(l + ".c", [0, 8]) if k == "list" else 0

    def op(spoil=False):
        from skops.io import dumps
        x = dump_value(k, v, other)
        r = outcome(lambda: dumps(x, compression=comp))
        if r[0] == "ok":
            return ["ok", zipcheck.Walk(ctx, r[1]).normal()]
        return r
    return op


LOAD = ["ListNode", "DictNode", "ObjectNode", "NdArrayNode", "PartialNode", "MethodNode", "FunctionNode", "SparseMatrixNode", "cached", "broken", "untyped",
        "RandomGeneratorNode", "TypeNode"]


def schema(k, v, names):
    b = B()
    leaf = b.js(v)
    if k == "cached":
        o = h_c08.build(b, "NdArrayNode", 2)
        return b.seq([o, o, b.seq([leaf]), o])
    if k == "broken":
        return b.seq([leaf, h_c08.build(b, "NdArrayNode", 2), {"__loader__": "ListNode", "__class__": "list"}])
    if k == "untyped":
        return b.seq([b.node("NoSuchNode", "builtins", "list", content=[])])
    if k in ("ObjectNode", "TypeNode"):
        return b.seq([h_c08.build(b, k, 2, nm=names), leaf])
    return b.seq([h_c08.build(b, k, 2), leaf])


def value(ctx, l):
    return objs.scalar(ctx, l + ".v", False)


NAMES20 = [("objcls", "Plain"), ("objcls", "Sub"), ("builtins", "list")]
TRUST = [None, [], ["objcls.Plain"], ["objcls.Sub", "objcls.Plain"], ["functools.partial"]]


def loaded(ctx, l, kinds):
    k = ctx.pick(l + ".k", kinds)
    nm = ctx.pick(l + ".nm", NAMES20) if k in ("ObjectNode", "TypeNode") else NAMES20[0]
    leaf = ctx.enum(l + ".leaf", ["0", "-7", "\"a\"", "null", "true"])
    T = ctx.pick(l + ".T", TRUST)
    p = ctx.pick(l + ".p", [2, 1])
    if k == "RandomGeneratorNode":
        p = 2
    return lambda: arch.pack(schema(k, leaf, nm), p), T


def op_loads(ctx, l, kinds=LOAD):
    mk, T = loaded(ctx, l, kinds)
    late = ctx.bool(l + ".reported")

    def op(spoil=False):
        from skops.io import get_untrusted_types, loads
        data = mk()

        def f():
            U = get_untrusted_types(data=data) if late else T
            return loads(data, trusted=U)
        r = outcome(f)
        if spoil and r[0] == "ok":
            mutate(r[1])
        return r
    return op


def op_types(ctx, l, kinds=LOAD):
    mk, T = loaded(ctx, l, kinds)

    def op(spoil=False):
        from skops.io import get_untrusted_types
        data = mk()
        r = outcome(lambda: get_untrusted_types(data=data))
        out = [r[0], list(r[1])]
        if spoil and r[0] == "ok":
            r[1].append("objcls.Plain")
        return out
    return op


def op_visualize(ctx, l, kinds=LOAD):
    mk, T = loaded(ctx, l, kinds)
    show = ctx.pick(l + ".show", ["all", "untrusted"])
    printed = ctx.bool(l + ".print")

    def op(spoil=False):
        from skops.io import visualize
        data = mk()
        rows = []

        def sink(nodes, show, **kw):
            for n in nodes:
                rows.append([n.level, n.key, n.val, n.is_self_safe, n.is_safe, n.is_last])
        if printed:
            return captured(lambda: visualize(data, trusted=T, show=show))
        return [outcome(lambda: visualize(data, trusted=T, show=show, sink=sink)), rows]
    return op


def captured(f):
    """What f prints (threads are told apart by their own buffers)."""
    out = OUT.start()
    try:
        r = outcome(f)
    finally:
        OUT.stop()
    return [r, out.getvalue()]


class PerThread:
    """A stdout of one's own for each thread."""

    def __init__(self, real):
        import threading
        self.real, self.ident, self.bufs = real, threading.get_ident, {}

    def start(self):
        self.bufs[self.ident()] = b = io.StringIO()
        return b

    def stop(self):
        self.bufs.pop(self.ident(), None)

    def __getattr__(self, n):
        return getattr(self.bufs.get(self.ident(), self.real), n)


PerThread.__init__._sx_direct = PerThread.start._sx_direct = PerThread.stop._sx_direct = True


def mutate(x):
    if type(x) is list:
        for y in x:
            mutate(y)
        x.append("spoiled")
    elif isinstance(x, np.ndarray) and x.dtype == float:
        x += 17
    elif isinstance(x, dict):
        x["spoiled"] = 1
    elif type(x) is objcls.Plain or type(x) is objcls.Sub:
        x.spoiled = 1
    elif isinstance(x, np.random.Generator):
        x.random()
    elif hasattr(x, "data") and hasattr(x, "nnz"):
        x.data[:] = 99


TEMPLATES = [None, "skops", "dict"]
TEMPLATE = {"Top": "top text", "Top/Sub": "sub text", "Other": "x"}
SHARED_TEMPLATE = dict(TEMPLATE)
STEPS = ["add", "nested", "metrics", "table", "plot", "delete", "section", "folded", "hyper", "bad", "toc", "save", "sub", "model"]


def model(k):
    from sklearn.linear_model import LogisticRegression, Ridge
    from sklearn.pipeline import make_pipeline
    return [LogisticRegression(C=2.0), Ridge(), make_pipeline(Ridge()), None][k]


model._sx_direct = True


def card_step(card, k, t, spoil):
    if k == "add":
        card.add(**{"Top": t, "New": "n"})
    elif k == "nested":
        card.add(folded=True, **{"A/B/C": t})
        card.add(**{"A/B": "over"})
    elif k == "metrics":
        card.add_metrics(acc=0.5, f1=t)
        card.add_metrics("Metrics/Own", description="d", loss=1)
    elif k == "table":
        d = {"a": [t, "y"], "b": [1, 2]}
        card.add_table(description="tab", **{"Tables/T": d})
        if spoil:
            d["a"][0] = "spoiled"
    elif k == "plot":
        card.add_plot(alt_text="alt", **{"Plots/P": "p.png"})
    elif k == "delete":
        card.add(**{"Gone/Deep": t})
        card.delete("Gone/Deep")
    elif k == "section":
        card.add(**{"S": "a"})
        s = card.select("S")
        s.content = t
        s.title = "Renamed"
    elif k == "sub":
        card.add(**{"S/T": "a"})
        s = card.select("S")
        s.subsections["T"].visible = False
        card.select("S").select("T").content = t
    elif k == "folded":
        card.add(**{"F/G": t})
        card.select("F").folded = True
    elif k == "hyper":
        card.add_hyperparams("H", description="d")
    elif k == "model":
        card.add_model_plot("M", description="m")
    elif k == "bad":
        card.select("no such section")
    elif k == "toc":
        card.get_toc()
    elif k == "save":
        card.save(os.path.join(hlib.scratch_dir(), "c20.md"))
    else:
        raise AssertionError(k)


def op_card(ctx, l, steps=STEPS, n=1):
    tpl = ctx.pick(l + ".tpl", TEMPLATES)
    mk = ctx.choice(l + ".m", 4 if tpl is None else 2)
    ks = [ctx.pick(l + f".s{i}", steps) for i in range(n)]
    t = ctx.str(l + ".t", "ab/#|", 0, 2)

    def op(spoil=False):
        from skops.card import Card

        def f():
            card = Card(model(mk), template=SHARED_TEMPLATE if tpl == "dict" else tpl)
            errs = []
            for k in ks:
                errs.append(outcome(lambda: card_step(card, k, t, spoil))[0])
            out = [errs, card.render(), card.get_toc(), sections(card)]
            if spoil:
                spoil_card(card)
            return out
        return outcome(f)
    return op


def sections(card):
    """The paths of the sections and the metrics of a card."""
    out = []

    def go(d, pre):
        for k, s in d.items():
            out.append([pre + [k], s.title, s.visible, s.folded])
            go(s.subsections, pre + [k])
    go(card._data, [])
    return [out, [[k, v] for k, v in card._metrics.items()]]


def spoil_card(card):
    for s in list(card._data.values()):
        s.content = "spoiled"
        s.folded = True
        for t in s.subsections.values():
            t.title = "spoiled"
        s.subsections["Spoiled"] = s
    card._data["Spoiled"] = list(card._data.values())[0] if card._data else None
    card._metrics["spoiled"] = 1


def op_parse(ctx, l):
    t = ctx.enum(l + ".t", ["t", "u v"])
    ks = [ctx.pick(l + f".b{i}", ["para", "list", "olist", "bad", "quote", "code", "div"]) for i in range(2)]

    def block(k):
        st = {"t": "Str", "c": t}
        p = {"t": "Plain", "c": [st]}
        return {"para": {"t": "Para", "c": [st, {"t": "Strong", "c": [st]}]}, "list": {"t": "BulletList", "c": [[p], [p, {"t": "BulletList", "c": [[p]]}]]},
                "olist": {"t": "OrderedList", "c": [[2, {"t": "Decimal"}, {"t": "Period"}], [[p]]]}, "bad": {"t": "BulletList", "c": [[p, {"t": "NoSuch", "c": []}]]},
                "quote": {"t": "BlockQuote", "c": [p]}, "code": {"t": "CodeBlock", "c": [["", [], []], "c\n d"]},
                "div": {"t": "Div", "c": [["i", ["c"], []], [p]]}}[k]

    def op(spoil=False):
        from skops.card._parser import PandocParser

        def f():
            bl = [{"t": "Header", "c": [1, ["a", [], []], [{"t": "Str", "c": "Top"}]]}, block(ks[0]),
                  {"t": "Header", "c": [2, ["b", [], []], [{"t": "Str", "c": "Sub"}]]}, block(ks[1])]
            card = PandocParser(json_text({"pandoc-api-version": [1, 23], "meta": {}, "blocks": bl})).generate()
            out = [card.render(), card.get_toc()]
            if spoil:
                spoil_card(card)
            return out
        return outcome(f)
    return op


OPS = {"dumps": op_dumps, "loads": op_loads, "types": op_types, "visualize": op_visualize, "card": op_card, "parse": op_parse}

def same(a, b):
    return objs.same(a, b)


# -------------------------------------------------------------------- history
def history(target, before, n, ids, tk=None, bk=None):
    def fn(ctx):
        arch.begin()
        SHARED_TEMPLATE.clear()
        SHARED_TEMPLATE.update(TEMPLATE)
        t = OPS[target](ctx, "T", *([tk] if tk else []))
        pre = []
        for i in range(n):
            k = ctx.pick(f"op{i}", before)
            pre.append(OPS[k](ctx, f"O{i}", *([bk] if bk and k == target else [])))
        a = ident.Allocator(-1, ctx.pick("ids", ["newest", "oldest"])) if ids and ctx.bool("reuse") else None
        pristine.restore()
        want = t()
        pristine.restore()
        if a:
            ident.install(a)
        try:
            for o in pre:
                o(True)
            got = t()
        finally:
            if a:
                ident.uninstall()
        again = t()
        pristine.restore()
        ctx.outcome = want[0] if isinstance(want[0], str) else "visualized"
        ctx.check(same(want, got), "the result depends on earlier calls")
        ctx.check(same(want, again), "the second of two equal calls has another result")
    return fn


def cards(n, steps):
    """Two cards used alternately: each has what it would have alone."""
    def fn(ctx):
        from skops.card import Card
        arch.begin()
        tpl = ctx.pick("tpl", TEMPLATES)
        shared = True if ctx.bool("one template object") else False
        mk = ctx.choice("m", 3)
        ks = [[ctx.pick(f"{c}{i}", steps) for i in range(n)] for c in "ab"]
        late = ctx.bool("second card created last")
        t = ctx.str("t", "ab/", 0, 2)
        one = model(mk)

        def make(tp):
            return Card(one, template=tp)

        def alone(j):
            pristine.restore()
            c = make(dict(TEMPLATE) if tpl == "dict" else tpl)
            for k in ks[j]:
                outcome(lambda: card_step(c, k, t + "xy"[j], False))
            return state(c)
        want = [alone(0), alone(1)]
        pristine.restore()
        tp = dict(TEMPLATE) if tpl == "dict" else tpl
        a = make(tp)
        if late:
            outcome(lambda: card_step(a, ks[0][0], t + "x", False))
        b = make(tp if shared or tpl != "dict" else dict(TEMPLATE))
        for i in range(n):
            if i or not late:
                outcome(lambda: card_step(a, ks[0][i], t + "x", False))
            outcome(lambda: card_step(b, ks[1][i], t + "y", False))
        got = [state(a), state(b)]
        ctx.check(tpl != "dict" or tp == TEMPLATE, "a card changed the template it was given")
        pristine.restore()
        ctx.check(not shares(a, b), "two cards share a section, its subsections or metrics")
        ctx.check(same(want[0], got[0]) and same(want[1], got[1]), "a card depends on another one")
        ctx.outcome = "separate"
    return fn


def state(c):
    return [c.render(), c.get_toc(), sections(c)]


def shares(a, b):
    def parts(c):
        out = {id(c._data), id(c._metrics)}

        def go(d):
            for s in d.values():
                if id(s) not in out:
                    out.add(id(s))
                    out.add(id(s.subsections))
                    go(s.subsections)
        go(c._data)
        return out
    return bool(parts(a) & parts(b))


shares._sx_direct = True


def model_path(ctx):
    """A card of a model file follows the file, whatever other cards read before."""
    from skops.card import Card
    from skops.io import dump
    arch.begin()
    pristine.restore()
    p = os.path.join(hlib.scratch_dir(), "m.skops")
    q = os.path.join(hlib.scratch_dir(), "n.skops")
    files = {}
    c = {}
    for i in range(4):
        op = ctx.pick(f"op{i}", ["write p 0", "write p 1", "write q 1", "card p", "card q", "read p", "read q"])
        w, f = op.split()[:2]
        if w == "write":
            dump(model(int(op[-1])), p if f == "p" else q)
            files[f] = int(op[-1])
        elif f in files:
            if w == "card":
                c[f] = Card(p if f == "p" else q, template=None)
            elif f in c:
                m = c[f].get_model()
                ctx.check(type(m) is type(model(files[f])), "the model of a card is not the one in its file")
                ctx.outcome = "read"
    for f in c:
        ctx.check(type(c[f].get_model()) is type(model(files[f])), "the model of a card is not the one in its file")
    for x in (p, q):
        if os.path.exists(x):
            os.unlink(x)


# ------------------------------------------------------------------- schedules
def place(ctx, l, n, near, stride=1):
    """Any statement, or one close to a change of state that outlives the call."""
    if near[1] and ctx.bool(l + " near"):
        s = near[0] if near[0] and ctx.bool(l + " change") else near[1]
        return s[ctx.choice(l + " at", len(s))]
    n = max(1, n // stride)
    i = ctx.choice(l, -(-n // 16)) * 16 + ctx.choice(l + " low", 16)
    return min(i, n - 1) * stride


def threads(first, second, fk=None, sk=None, twice=False, stride=1):
    def fn(ctx):
        arch.begin()
        SHARED_TEMPLATE.clear()
        SHARED_TEMPLATE.update(TEMPLATE)
        f = OPS[first](ctx, "F", *([fk] if fk else []))
        g = OPS[second](ctx, "G", *([sk] if sk else []))
        pristine.restore()
        now = pristine.watch()
        wf, nf, cf = sched.count(f, now)
        pristine.restore()
        wg, ng, cg = sched.count(g, now) if twice else (g(), 0, ((), ()))
        pristine.restore()
        i = place(ctx, "switch", nf, cf, stride)
        j = place(ctx, "switch back", ng, cg, stride) if twice else -1
        (rf, rg), n = sched.two(f, g, i, j)
        pristine.restore()
        ctx.outcome = f"{n} switches" + (" near a change" if cf[1] or cg[1] else "")
        ctx.check(same(wf, rf), "the result depends on what another thread does meanwhile")
        ctx.check(same(wg, rg), "the result depends on what another thread does meanwhile")
    return fn


FEW = ["object", "shared", "array", "bad"]
FEWL = ["cached", "ObjectNode", "broken", "PartialNode"]
FEWC = ["nested", "metrics", "table"]


def obligations(tier):
    q = tier == "quick"
    obs = []
    for t in OPS:
        obs.append(dict(name="after-" + t, fn=history(t, [t], 1, False), time=60 if q else 200, bounds=f"{t} after one other {t}, symbolic arguments"))
        obs.append(dict(name="mixed-" + t, fn=history(t, [k for k in OPS if k != t], 1, False), time=60 if q else 200, bounds=f"{t} after one call of another kind"))
        obs.append(dict(name="two-" + t, fn=history(t, list(OPS), 2, t in ("dumps", "loads")), time=60 if q else 300, bounds=f"{t} after two calls of any kind"))
    obs.append(dict(name="ids-dumps", fn=history("dumps", ["dumps"], 1, True), time=60 if q else 200, bounds="dumps after dumps under an allocator that reuses ids"))
    obs.append(dict(name="ids-loads", fn=history("loads", ["dumps", "loads"], 1, True), time=60 if q else 200, bounds="loads under an allocator that reuses ids"))
    obs.append(dict(name="cards", fn=cards(1 if q else 2, STEPS), time=60 if q else 300, bounds="two cards, 1 (2) of 14 operations on each, 3 templates (one object or two)"))
    obs.append(dict(name="model-path", fn=model_path, time=30 if q else 200, bounds="4 operations on two model files and their cards"))
    pairs = [("dumps", "dumps", FEW, FEW), ("loads", "loads", FEWL, FEWL), ("dumps", "loads", FEW, FEWL), ("loads", "types", FEWL, FEWL),
             ("visualize", "visualize", FEWL, FEWL), ("visualize", "loads", FEWL, FEWL), ("card", "card", FEWC, FEWC), ("parse", "parse", None, None), ("types", "dumps", FEWL, FEW)]
    for a, b, x, y in pairs:
        obs.append(dict(name=f"threads-{a}-{b}", fn=threads(a, b, x, y), time=60 if q else 300,
                        bounds=f"{a} interrupted before any of its statements by a whole {b}"))
        obs.append(dict(name=f"switched-{a}-{b}", fn=threads(a, b, x, y, True, 7 if q else 2), time=40 if q else 300,
                        bounds=f"{a} and {b} switched twice, before every 7th (2nd) statement of each"))
    return obs


OUT = None


def prepare():
    global OUT
    import sys
    import threading
    import sklearn.utils._estimator_html_repr as er
    er._IDCounter.get_id = lambda self: self.prefix + "-0"      # the ids of diagrams count up by design
    import skops.card  # noqa
    import skops.card._parser  # noqa
    import skops.io  # noqa
    threading.stack_size(256 * 1024 * 1024)
    arch.prepare()
    OUT = PerThread(sys.stdout)
    sys.stdout = OUT
    model(0)
    # imports that happen at the first call
    from skops.card import Card
    Card(model(0)).render()
    pristine.save()


prepare_replay = prepare
