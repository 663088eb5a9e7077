"""C04: a dump that succeeds loads back as the same object, or loading fails; nothing changes quietly."""
import arch
import objs

INSTRUMENT = ["objs", "objcls"]

ASSUMPTIONS = [
    "objects come from a grammar over builtins, subclasses of builtins, containers with attributes, objects with "
    "__getstate__/__reduce__ of every kind, collections, value types of the standard library, callables, numpy and scipy "
    "objects (supported or not), with keys of any type, at symbolic positions inside of other objects",
    "two functions or classes are the same when they are the same object; iterators and views are compared by type and repr",
    "classes that shadow another class of their module under the same __qualname__ are not modelled, nor objects that lack an attribute which their "
    "own __new__ sets (their class does not restore them from their state; pickle behaves alike)",
]


def outcome(ctx, mk):
    from skops.io import dumps, get_untrusted_types, loads
    arch.begin()
    try:
        x, copy, other = mk(), mk(), mk()
    except TypeError:
        return "no such object"
    stable = objs.same(copy, other)       # two builds of some objects (a property, an iterator) differ
    try:
        data = dumps(x)
    except Exception as exc:
        data = None
    if stable:
        ctx.check(objs.same(x, copy), "dumping changes the value")
    if data is None:
        return "dump raises"
    try:
        y = loads(data, trusted=get_untrusted_types(data=data))
    except Exception as exc:
        return "load raises"
    ctx.check(objs.same(x, y), "the object was dumped without an error but loads as another object")
    return "same"


def at(make, kinds):
    def fn(ctx):
        x = make(ctx)
        mk = objs.wrap(ctx, "w", x, kinds) if kinds else x
        ctx.outcome = outcome(ctx, mk)
    return fn


def twice(ctx):
    """Two odd values in one object."""
    a = objs.anything(ctx, "a", 0)
    b = objs.anything(ctx, "b", 0)
    ctx.outcome = outcome(ctx, objs.wrap(ctx, "w", lambda: [a(), b()], ["none", "tuple", "object"]))


def keyed(n):
    def fn(ctx):
        ks = [objs.key(ctx, f"k{i}", True) for i in range(n)]
        cl = ctx.pick("class", [dict, objs.collections.OrderedDict, objs.collections.Counter, objs.objcls.MDict, objs.objcls.Plain])

        def mk():
            d = dict() if cl is objs.objcls.Plain else cl()
            for i, k in enumerate(ks):
                d[k] = i
            return objs.objcls.Plain(**{"d": d}) if cl is objs.objcls.Plain else d
        ctx.outcome = outcome(ctx, objs.wrap(ctx, "w", mk, ["none", "list"]))
    return fn


def obligations(tier):
    q = tier == "quick"
    obs = []
    for g in [*objs.ODD, "keys"]:
        obs.append(dict(name="only-" + g, fn=at(lambda ctx, g=g: objs.anything(ctx, "x", 1, [g]), None), time=40 if q else 250,
                        bounds=f"every entry of the {g} table around a json value"))
        obs.append(dict(name="in-" + g, fn=at(lambda ctx, g=g: objs.anything(ctx, "x", 0 if g != "keys" else 1, [g]), [*objs.WRAPS[1:], "default_factory", "getstate", "itemgetter"]), time=40 if q else 250,
                        bounds=f"every entry of the {g} table inside of 13 kinds of objects"))
        if not q and g != "keys":
            obs.append(dict(name="around-" + g, fn=at(lambda ctx, g=g: objs.anything(ctx, "x", 2, [g]), ["none", "object"]), time=400,
                            bounds=f"every entry of the {g} table around any other entry"))
    obs.append(dict(name="keys-2", fn=keyed(2), time=60 if q else 300, bounds="two keys of any type"))
    if not q:
        obs.append(dict(name="keys-3", fn=keyed(3), time=300, bounds="three keys of any type"))
    obs.append(dict(name="twice", fn=twice, time=50 if q else 400, bounds="two entries of any tables together"))
    return obs


def prepare():
    arch.prepare()


prepare_replay = prepare
