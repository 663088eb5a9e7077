"""C09: the model card is an ordered section tree with stable addressing.

Symbolic: the characters of every path / title, the operation sequence.  The
reference is an association-list tree written from the property's text."""
from hlib import WIDE, new_card

ASSUMPTIONS = [
    "titles and paths: strings over the stated finite alphabets up to the stated lengths",
    "paths given to add have non-empty parts (the property does not define empty parts for add)",
    "paths with an empty inner part given to select/delete are only checked for a non-KeyError "
    "exception or a change of the card, not for which of the two documented outcomes is chosen",
    "section contents are distinct concrete marker strings: the code never inspects them",
]


ANY = "".join(c for c in WIDE if c not in "/\\" and c.strip() == c)      # a title character


# --------------------------------------------------------------- reference model
def ref_split(path):
    parts = []
    cur = ""
    i = 0
    n = len(path)
    while i < n:
        c = path[i]
        if c == "\\" and i + 1 < n and path[i + 1] == "/":
            cur = cur + "\\/"
            i += 2
            continue
        if c == "/":
            parts.append(cur)
            cur = ""
        else:
            cur = cur + c
        i += 1
    parts.append(cur)
    out = []
    for p in parts:
        p = p.strip()
        r = ""
        i = 0
        n = len(p)
        while i < n:
            if p[i] == "\\" and i + 1 < n and p[i + 1] == "/":
                r = r + "/"
                i += 2
            else:
                r = r + p[i]
                i += 1
        out.append(r)
    return out


class Ref:
    """Insertion-ordered tree: list of [name, content, children]."""

    def __init__(self):
        self.top = []

    def level(self, names):
        lev = self.top
        for nm in names:
            e = self.find(lev, nm)
            if e is None:
                return None
            lev = e[2]
        return lev

    def find(self, lev, nm):
        for e in lev:
            if e[0] == nm:
                return e
        return None

    def add(self, names, content, text=None):
        lev = self.top
        for nm in names[:-1]:
            e = self.find(lev, nm)
            if e is None:
                e = [nm, "", [], ""]
                lev.append(e)
            lev = e[2]
        e = self.find(lev, names[-1])
        if e is None:
            lev.append([names[-1], content, [], text])
        else:
            e[1] = content
            e[3] = text

    def get(self, names):
        lev = self.level(names[:-1])
        return None if lev is None else self.find(lev, names[-1])

    def delete(self, names):
        lev = self.level(names[:-1])
        e = self.find(lev, names[-1])
        lev.remove(e)


def snapshot(d):
    return [(k, s.content, snapshot(s.subsections)) for k, s in d.items()]


def compare(ctx, card, ref, what):
    _cmp(ctx, card._data, ref.top, what, "")


def _cmp(ctx, d, lev, what, where):
    keys = list(d.keys())
    ctx.check(len(keys) == len(lev), lambda: f"{what}: wrong set of sections under '{where}'")
    for k, e in zip(keys, lev):
        ctx.check(k == e[0], lambda: f"{what}: section order/name under '{where}'")
        s = d[k]
        ctx.check(s.content == e[1], lambda: f"{what}: content of a section under '{where}'")
        ctx.check(e[3] is None or s.format() == e[3], lambda: f"{what}: what a section shows under '{where}'")
        _cmp(ctx, s.subsections, e[2], what, where + "/x")


def is_refusal(exc):
    return isinstance(exc, KeyError)


# ------------------------------------------------------------------- obligations
def parse_path(lo, hi, alphabet):
    def fn(ctx):
        path = ctx.str("path", alphabet, lo, hi)
        want = ref_split(path)
        for w in want:
            ctx.assume(len(w) > 0)
        card = new_card()
        card.add(**{path: "X"})
        d = card._data
        for i, w in enumerate(want):
            ks = list(d.keys())
            ctx.check(len(ks) == 1, "path parsing: wrong number of sections")
            ctx.check(ks[0] == w, "path parsing: section name differs from the path part")
            s = d[ks[0]]
            ctx.check(s.title == w, "path parsing: title differs from the path part")
            ctx.check(s.content == ("X" if i == len(want) - 1 else ""), "path parsing: content misplaced")
            d = s.subsections
        ctx.check(len(d) == 0, "path parsing: path splits into too many sections")
        ctx.check(card.select(path).content == "X", "select(path) does not return what was added")
        # chained select through the section objects
        obj = card
        for w in want:
            e = w.replace("/", "\\/")
            obj = obj.select(e)
        ctx.check(obj.content == "X", "chained select does not return what was added")
        ctx.outcome = "ok"
    return fn


def bad_path(lo, hi, alphabet):
    """select/delete of missing or empty names: KeyError, nothing changes"""
    def fn(ctx):
        card = new_card()
        card.add(**{"a": "A", "a/b": "B", "b": "C"})
        ref = Ref()
        for p, c in ((["a"], "A"), (["a", "b"], "B"), (["b"], "C")):
            ref.add(p, c)
        path = ctx.str("path", alphabet, lo, hi)
        parts = ref_split(path)
        op = ctx.choice("op", 3)
        inner_empty = False
        for p in parts[:-1]:
            if len(p) == 0:
                inner_empty = True
        e = None if len(parts[-1]) == 0 else ref.get(parts)
        missing = e is None
        try:
            if op == 0:
                r = card.select(path)
            elif op == 1:
                r = card.delete(path)
            else:
                names = path.split("/")
                e = ref.get(names) if len(names[-1]) > 0 and len(path) > 0 else None
                missing = e is None
                inner_empty = False
                if len(path) == 0:
                    names = []
                r = card.delete(names)
            exc = None
        except KeyError as ex:
            exc = ex
        except Exception as ex:
            exc = ex
            ctx.fail(f"{['select', 'delete', 'delete-list'][op]}: raises {type(ex).__name__} instead of KeyError")
        if missing:
            ctx.check(exc is not None, "selecting/deleting a missing or empty name does not raise KeyError")
            compare(ctx, card, ref, "failed select/delete changed the card")
            ctx.outcome = "missing"
        else:
            ctx.check(exc is None, "selecting/deleting an existing section raises")
            if op == 0:
                ctx.check(r.content == e[1], "select returns the wrong section")
                compare(ctx, card, ref, "select changed the card")
            else:
                ref.delete(parts if op == 1 else names)
                compare(ctx, card, ref, "delete")
            ctx.outcome = "found"
    return fn


def title(ctx, name, rich):
    """one path part: (text as written in the path, title)"""
    kind = ctx.choice(name + ".kind", 3 if rich else 1)
    t = ctx.str(name, ANY, 1, 1)
    if kind == 1:
        return " " + t + "\t", t
    if kind == 2:
        return t + "\\/b", t + "/b"
    return t, t


def mk_path(ctx, name, depth, rich):
    n = 1 + ctx.choice(name + ".depth", depth)
    raw, parts = "", []
    for i in range(n):
        r, t = title(ctx, f"{name}.{i}", rich)
        raw = r if i == 0 else raw + "/" + r
        parts.append(t)
    return raw, parts


def shown(op, i, folded):
    """What a section shows if the operation is the only one."""
    c = new_card()
    if op == "table":
        c.add_table(description=f"c{i}", folded=folded, x={"x": [1]})
    elif op == "plot":
        c.add_plot(description=f"c{i}", folded=folded, alt_text="alt", x="p.png")
    else:
        c.add(folded=folded, x=f"c{i}")
    return c.select("x").format()


def sequence(k, depth, rich, ops, first_adds=0):
    def fn(ctx):
        card = new_card()
        ref = Ref()
        kinds = {}
        for i in range(k):
            op = "add" if i < first_adds else ctx.pick(f"op{i}", ops)
            raw, parts = mk_path(ctx, f"p{i}", depth, rich)
            if op == "add":
                folded = ctx.bool(f"f{i}") if rich else False
                r = card.add(folded=folded, **{raw: f"c{i}"})
                ctx.check(r is card, "add does not return the card")
                ref.add(parts, f"c{i}", shown(op, i, folded))
            elif op == "add2":
                raw2, parts2 = mk_path(ctx, f"q{i}", 1, False)
                ctx.assume(not (raw == raw2))
                card.add(**{raw: f"c{i}", raw2: f"d{i}"})
                ref.add(parts, f"c{i}")
                ref.add(parts2, f"d{i}")
            elif op == "table":
                folded = ctx.bool(f"f{i}")
                card.add_table(description=f"c{i}", folded=folded, **{raw: {"x": [1]}})
                ref.add(parts, f"c{i}", shown(op, i, folded))
            elif op == "plot":
                folded = ctx.bool(f"f{i}")
                card.add_plot(description=f"c{i}", folded=folded, alt_text="alt", **{raw: "p.png"})
                ref.add(parts, f"c{i}", shown(op, i, folded))
            elif op == "metrics":
                card.add_metrics(section=raw, description=f"c{i}", m=i)
                ref.add(parts, f"c{i}")
            elif op == "select":
                e = ref.get(parts)
                try:
                    s = card.select(raw)
                except KeyError:
                    s = None
                ctx.check((s is None) == (e is None), "select of an existing/missing section")
                if e is not None:
                    ctx.check(s.content == e[1], "select returns other content than last added")
            elif op == "chain":
                e = ref.get(parts)
                try:
                    s = card
                    for t in parts:
                        s = s.select(t.replace("/", "\\/"))
                except KeyError:
                    s = None
                ctx.check((s is None) == (e is None), "chained select of an existing/missing section")
                if e is not None:
                    ctx.check(s.content == e[1], "chained select returns other content")
            else:
                e = ref.get(parts)
                try:
                    card.delete(raw if op == "delete" else parts)
                    ok = True
                except KeyError:
                    ok = False
                ctx.check(ok == (e is not None), "delete of an existing/missing section")
                if e is not None:
                    ref.delete(parts)
            compare(ctx, card, ref, f"after {op}")
            for p in [parts]:
                e = ref.get(p)
                if op in ("add", "table", "plot", "metrics"):
                    s = card.select(raw)
                    ctx.check(s.content == f"c{i}", f"select after {op} returns something else")
                    if op != "metrics":
                        ctx.check(s.format() == shown(op, i, folded), f"select after {op}: the section shows something else")
        ctx.outcome = "ok"
    return fn


SHAPES = {"chain": lambda i: i, "star": lambda i: 0, "binary": lambda i: (i + 1) // 2, "zigzag": lambda i: 0 if i % 5 == 0 else i}


def big(sizes, k):
    """Operations at symbolic places of a card of many sections."""
    def fn(ctx):
        card, ref = new_card(), Ref()
        shape = ctx.pick("shape", list(SHAPES))
        n = ctx.pick("n", sizes)
        if shape == "chain":
            n = min(n, 24)
        once = ctx.bool("one call")
        paths, kw = [], {}
        for i in range(n):
            p = SHAPES[shape](i)
            paths.append(([] if p == 0 else paths[p - 1]) + [f"T{i}" if i % 3 else f"a/b {i}"])
            raw = "/".join([x.replace("/", "\\/") for x in paths[-1]])
            kw[raw] = f"c{i}"
            if not once:
                card.add(**{raw: f"c{i}"})
            ref.add(paths[-1], f"c{i}")
        if once:
            card.add(**kw)
        raws = list(kw)
        compare(ctx, card, ref, "after many adds")
        for j in range(k):
            op = ctx.pick(f"op{j}", ["delete", "deletel", "over", "under", "select", "missing"])
            i = ctx.choice(f"at{j}", n)
            e = ref.get(paths[i])
            try:
                if op == "select":
                    r = card.select(raws[i]).content
                    ctx.check(e is not None and r == e[1], "select of an existing/missing section")
                elif op in ("delete", "deletel"):
                    card.delete(raws[i] if op == "delete" else paths[i])
                    ctx.check(e is not None, "delete of an existing/missing section")
                    ref.delete(paths[i])
                elif op == "over":
                    card.add(**{raws[i]: f"new{j}"})
                    ref.add(paths[i], f"new{j}")
                elif op == "under":
                    card.add(**{raws[i] + "/x/y": f"new{j}"})
                    ref.add(paths[i] + ["x", "y"], f"new{j}")
                else:
                    card.delete(raws[i] + "/none")
                    ctx.fail("delete of an existing/missing section")
            except KeyError:
                ctx.check(op == "missing" or (e is None and op in ("select", "delete", "deletel")), f"{op} raises KeyError")
            compare(ctx, card, ref, f"after {op} in a large card")
        ctx.outcome = shape
    return fn


def obligations(tier):
    A = "/\\ a"
    obs = []
    q = tier == "quick"
    hi = 5 if q else 7
    obs.append(dict(name="parse-short", fn=parse_path(1, hi, A), time=60 if q else 250,
                    bounds=f"paths of 1..{hi} characters over {A!r}"))
    obs.append(dict(name="parse-wide", fn=parse_path(1, 4 if q else 6, WIDE), time=60 if q else 200,
                    bounds="paths of 1..4 (6) arbitrary characters (printable ASCII, blanks, controls, combining, wide, "
                           "astral)"))
    obs.append(dict(name="missing", fn=bad_path(0, 4 if q else 5, WIDE), time=60 if q else 250,
                    bounds="select/delete(str)/delete(list) of every string of <=4 (5) arbitrary characters on a 3-section card"))
    allops = ["add", "delete", "select", "chain", "deletel", "add2"]
    obs.append(dict(name="seq-plain", fn=sequence(3, 2, False, ["add", "delete", "deletel", "select"]),
                    time=60, bounds="3 operations, depth<=2, 1-char titles over {a,b}"))
    obs.append(dict(name="seq-over-del-add", fn=sequence(4 if q else 6, 2, False, ["add", "delete"], first_adds=2),
                    time=70 if q else 250, bounds="2 adds then 2 (3) add/delete, depth<=2"))
    obs.append(dict(name="seq-rich", fn=sequence(2, 2, True, allops), time=70,
                    bounds="2 operations, depth<=2, decorated titles (blanks, escaped slash), folded flag"))
    obs.append(dict(name="seq-builders", fn=sequence(3, 2 if not q else 1, False,
                                                    ["add", "table", "plot", "metrics", "delete", "chain"]),
                    time=60 if q else 200, bounds="3 operations incl. add_table/add_plot/add_metrics"))
    obs.append(dict(name="seq-depth3", fn=sequence(3 if q else 4, 3, False, ["add", "delete", "chain"], first_adds=1),
                    time=60 if q else 250, bounds="2 (3) operations, depth<=3"))
    obs.append(dict(name="big", fn=big([6, 11, 40] if q else [6, 9, 11, 17, 40, 120], 2 if q else 3), time=60 if q else 250,
                    bounds="6, 11, 40 (120) sections in 4 shapes (chains up to 24 deep), then 2 (3) operations at any of them"))
    return obs
