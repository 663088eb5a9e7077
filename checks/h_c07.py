"""C07: a reloaded scikit-learn estimator is the same model."""
import arch
import objs
import zoo

INSTRUMENT = ["objs", "objcls"]
REPLAY_TIMEOUT = 60
TARGET = 110

ASSUMPTIONS = [
    "hyper-parameters of unfitted estimators: every constraint of the class; integers of an interval are symbolic, enumerations "
    "complete, real intervals by representatives; one value, or two of different parameters, away from a small instance",
    "training data, targets, and the hyper-parameters that fitted estimators are fitted with come from tables indexed by "
    "symbolic choices (scikit-learn and numpy are native code); plain values among fitted attributes are then made symbolic",
    "outputs are compared bitwise on the training data and on one other input, where copies of the original agree",
    "Birch is documented as unsupported; parts that scikit-learn does not list as estimators may need a trusted list",
]


def loaded(ctx, e, trusted=True):
    """e dumped and loaded, as its names are default-trusted or not."""
    from skops.io import dumps, get_untrusted_types, loads
    try:
        data = dumps(e)
        names = get_untrusted_types(data=data)
    except Exception as exc:
        ctx.outcome = "refused"
        m = type(exc).__name__ + ": " + str(exc)[:60]
        ctx.fail("the estimator cannot be dumped: " + m)
    bad = zoo.untrusted_family([str(n) for n in names])
    ctx.check(not bad, "a default-trusted type is reported: " + ", ".join(bad[:3]))
    try:
        l = loads(data) if not names else loads(data, trusted=names)
    except Exception as exc:
        ctx.outcome = "not loaded"
        m = type(exc).__name__ + ": " + str(exc)[:60]
        ctx.fail("the estimator cannot be loaded: " + m)
    ctx.check(type(l) is type(e), "the loaded estimator is of another class")
    return l


def compare(ctx, e, l):
    """Parameters and attributes, except the ones that no copy keeps."""
    if objs.same(e, l):
        ctx.check(objs.same(e.get_params(deep=False), l.get_params(deep=False)), "the parameters differ")
        return
    n = different(e, l)
    ctx.check(n is None, "an attribute differs: " + str(n))


def different(e, l):
    a, b = vars(e), vars(l)
    for k in list(a):
        if k not in b:
            return k + " (missing)"
        if not objs.same(a[k], b[k]) and zoo.keeps(a[k]):
            return k
    for k in list(b):
        if k not in a:
            return k + " (new)"
    if list(a) != list(b):
        return "the order of attributes"
    return None


def choose(ctx, l, c, skip=()):
    """A parameter and an index of its values (None: symbolic integer)."""
    sp = [s for s in zoo.space(c) if s[0] not in skip]
    if not sp:
        return None
    p, vals, rng = sp[ctx.choice(l, len(sp))]
    return p, vals, rng


def unfitted(cs):
    def fn(ctx):
        arch.begin()
        c = ctx.pick("class", cs)
        e = zoo.make(c)
        if zoo.space(c):
            one = choose(ctx, "p", c)
            setp(ctx, "v", e, c, one)
            if ctx.bool("another"):
                two = choose(ctx, "p2", c, (one[0],))
                if two:
                    setp(ctx, "v2", e, c, two)
        orig = zoo.clone_plain(e)
        l = loaded(ctx, e)
        compare(ctx, e, l)
        ctx.check(objs.same(e, orig), "dumping changes the estimator")
        ctx.outcome = "same"
    return fn


def setp(ctx, lab, e, c, pvr):
    p, vals, rng = pvr
    n = len(vals)
    i = ctx.choice(lab, n + (rng is not None))
    if i < n:
        zoo.set_param(e, p, zoo.value_of(c, p, vals[i]))
    else:
        zoo.set_param(e, p, ctx.int(lab + "i", rng.lo, rng.hi))


def fitted(cs):
    """Hyper-parameters x data; attributes and outputs."""
    def fn(ctx):
        arch.begin()
        c = ctx.pick("class", cs)
        xs, ys = zoo.compat(c)
        params = []
        if zoo.space(c):
            k = ctx.choice("changed", 3)
            used = []
            for i in range(k):
                p = choose(ctx, f"p{i}", c, used)
                if p:
                    used.append(p[0])
                    params.append((p[0], ctx.choice(f"v{i}", len(p[1]))))
        x, y = ctx.pick("x", xs), ctx.pick("y", ys)
        e = zoo.fitted(c, tuple(params), x, y)
        if e is None:
            ctx.outcome = "unfit"
            return
        l = loaded(ctx, e)
        compare(ctx, e, l)
        d = zoo.first_difference(e, l, x)
        ctx.check(d is None, "an output differs: " + str(d))
        ctx.outcome = "same"
    return fn


VALUES = ["int", "str", "bool", "float", "none"]


def attributes(cs):
    """Plain values at any place of a fitted estimator."""
    def fn(ctx):
        arch.begin()
        c = ctx.pick("class", cs)
        si = zoo.simplest(c)
        if not si:
            ctx.outcome = "unfit"
            return
        x, y = ctx.pick("data", si)
        e = zoo.fitted(c, (), x, y)
        vary(ctx, e)
    return fn


def vary(ctx, e):
    e = zoo.clone(e)      # shares nothing with the tables
    places = zoo.leaves(e)
    if not places:
        ctx.outcome = "no places"
        return
    for i in range(2):
        box, k, kind = places[ctx.choice(f"place{i}", len(places))]
        zoo.set_at(box, k, plain(ctx, f"v{i}"))
    l = loaded(ctx, e)
    compare(ctx, e, l)
    ctx.outcome = "same"


def plain(ctx, l):
    k = ctx.pick(l + "kind", VALUES)
    if k == "int":
        return ctx.int(l + "int", -2 ** 66, 2 ** 66)
    if k == "str":
        return ctx.str(l + "str", objs.WIDE, 0, 2)
    if k == "bool":
        return ctx.bool(l + "bool")
    if k == "float":
        return ctx.pick(l + "float", objs.FLOATS)
    return None


def composed(names, vary_them):
    def fn(ctx):
        arch.begin()
        n = ctx.pick("composition", names)
        fit = ctx.bool("fitted")
        e = zoo.composed(n, fit)
        if e is None:
            ctx.outcome = "unfit"
            return
        if vary_them:
            vary(ctx, e)
            return
        l = loaded(ctx, e)
        compare(ctx, e, l)
        if fit:
            d = zoo.first_difference(e, l, zoo.compositions()[n][1])
            ctx.check(d is None, "an output differs: " + str(d))
        ctx.outcome = "same" if fit else "same, unfitted"
    return fn


def parts(xs, n):
    return [xs[i::n] for i in range(n)]


def obligations(tier):
    q = tier == "quick"
    cs = zoo.classes()
    obs = []
    for i, g in enumerate(parts(cs, 6)):
        obs.append(dict(name=f"unfitted-{i}", fn=unfitted(g), time=40 if q else 300,
                        bounds=f"{len(g)} classes, one or two hyper-parameters set to any value of their constraints"))
        obs.append(dict(name=f"fitted-{i}", fn=fitted(g), time=90 if q else 700,
                        bounds=f"{len(g)} classes, up to two hyper-parameters changed, every training set and target of the tables"))
        obs.append(dict(name=f"attributes-{i}", fn=attributes(g), time=40 if q else 300,
                        bounds=f"{len(g)} fitted classes, two plain values at any place replaced by symbolic ones"))
    for i, g in enumerate(parts(sorted(zoo.compositions()), 3)):
        obs.append(dict(name=f"composed-{i}", fn=composed(g, False), time=60 if q else 200, bounds=f"{len(g)} compositions, unfitted and fitted"))
        obs.append(dict(name=f"composed-attributes-{i}", fn=composed(g, True), time=40 if q else 300,
                        bounds=f"{len(g)} compositions, two plain values at any place replaced by symbolic ones"))
    return obs


def prepare():
    import warnings
    warnings.filterwarnings("ignore")
    arch.prepare()
    from sklearn.base import BaseEstimator
    BaseEstimator.__setstate__._sx_direct = BaseEstimator.__getstate__._sx_direct = True


def prepare_replay():
    import warnings
    warnings.filterwarnings("ignore")
