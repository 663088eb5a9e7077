"""C10: render / save / get_toc agree with the visible tree.

Symbolic: tree shape, titles, contents, visible/folded flags, section kinds."""
import os

from hlib import new_card, read_text, scratch_dir, reset_files

ASSUMPTIONS = [
    "sections are created by Card.add/add_plot/add_table/add_metrics and then hidden/renamed through "
    "the documented Section attributes visible, folded, title, content",
    "text is compared as the sequence of its non-blank lines (blank separators between blocks are not "
    "prescribed by the property) for render, and exactly for save versus render",
]
# replayed under an ASCII locale, so that the encoding of save() is observable
REPLAY_ENV = {"LC_ALL": "POSIX", "LANG": "POSIX", "PYTHONUTF8": "0", "PYTHONCOERCECLOCALE": "0",
              "PYTHONIOENCODING": "utf-8"}


def lines(text):
    return [ln for ln in text.split("\n") if len(ln.strip()) > 0]


def expected(nodes, depth, out, toc):
    for n in nodes:
        if not n["visible"]:
            continue
        out.extend(lines("#" * depth + " " + n["title"]))
        toc.append((depth - 1, n["title"]))
        body = []
        if n["kind"] == "plot":
            body = ["![" + n["alt"] + "](" + n["path"] + ")"]
        elif n["kind"] == "table":
            body = None
        else:
            body = lines(n["content"])
        if n["kind"] != "plain":
            out.extend(lines(n["content"]))
        if n["folded"]:
            out.append("<details>")
            out.append(("<summary>",))
        if body is None:
            out.append(("|",))          # header row, rule, one body row: checked in C14
            out.append(("|",))
            out.append(("|",))
        else:
            out.extend(body)
        if n["folded"]:
            out.append("</details>")
            continue
        expected(n["kids"], depth + 1, out, toc)


def toc_lines(text):
    return [] if len(text) == 0 else text.split("\n")


def compare(ctx, card, top):
    want, toc = [], []
    expected(top, 1, want, toc)
    text = card.render()
    got = lines(text)
    for i, w in enumerate(want):
        ctx.check(i < len(got), "render: a visible heading or content line is missing")
        if type(w) is tuple:
            ctx.check(got[i].strip().startswith(w[0]), "render: details/table line expected")
        else:
            ctx.check(got[i] == w, "render: heading/content line differs from the visible tree")
    ctx.check(len(got) == len(want), "render: shows more than the visible tree")
    # save
    d = scratch_dir()
    p = os.path.join(d, "README.md")
    with open(p, "wb") as f:
        f.write(b"previous content of the file\n" * 3)
    try:
        card.save(p)
        saved = read_text(p)
    except Exception as exc:
        saved = None
        ctx.fail(f"save raises {type(exc).__name__}")
    ctx.check(saved == text, "save writes something else than render() returns")
    # toc
    tl = toc_lines(card.get_toc())
    ctx.check(len(tl) == len(toc), "get_toc: number of entries differs from the rendered headings")
    unit = 0
    for ln, (dep, title) in zip(tl, toc):
        ind = 0
        while ln[ind] == " ":
            ind += 1
        ctx.check(ln[ind:] == "- " + title, "get_toc: entry differs from the rendered heading")
        if dep > 0:
            if unit == 0:
                unit = ind // dep
            ctx.check(ind > 0 and ind == unit * dep, "get_toc: indentation does not follow depth")
        else:
            ctx.check(ind == 0, "get_toc: indentation does not follow depth")
    return text


def build(ctx, n, kinds, content_alpha, clen, flags, rename):
    card = new_card()
    top = []
    nodes = []
    for i in range(n):
        # parent: any earlier section or the top level
        par = ctx.choice(f"parent{i}", i + 1)
        kind = ctx.pick(f"kind{i}", kinds)
        ch = ctx.str(f"title{i}", "x#\u00e9", 1, 1)
        title = f"T{i}" + ch
        content = ctx.str(f"content{i}", content_alpha, 0, clen) if clen else f"body {i}"
        folded = ctx.bool(f"folded{i}") if flags else False
        visible = ctx.bool(f"hidden{i}") == False if flags else True  # noqa: E712
        node = dict(title=title, content=content, folded=folded, visible=visible, kids=[], kind=kind,
                    path=f"p{i}.png", alt=title, key=title)
        if par == 0:
            top.append(node)
            node["full"] = title
        else:
            pn = nodes[par - 1]
            pn["kids"].append(node)
            node["full"] = pn["full"] + "/" + title
        nodes.append(node)
        if kind == "plain":
            card.add(folded=folded, **{node["full"]: content})
        elif kind == "plot":
            card.add_plot(description=content, folded=folded, **{node["full"]: node["path"]})
        else:
            card.add_table(description=content, folded=folded, **{node["full"]: {"c": [1]}})
        sec = card.select(node["full"])
        sec.visible = visible
        if kind == "table":
            # heading checked in C14; here the title attribute is what the user set
            sec.title = title
        if rename and ctx.bool(f"rename{i}"):
            new = "N" + ctx.str(f"new{i}", "x#", 1, 1)
            sec.title = new
            node["title"] = new
    return card, top


def tree(n, kinds, alpha, clen, flags=True, rename=False):
    def fn(ctx):
        reset_files()
        card, top = build(ctx, n, kinds, alpha, clen, flags, rename)
        compare(ctx, card, top)
        ctx.outcome = "ok"
    return fn


def late_flags(n):
    """flags set (and reset) after building; sections overwritten and deleted"""
    def fn(ctx):
        reset_files()
        card, top = build(ctx, n, ["plain"], "ab", 0, False, False)
        compare(ctx, card, top)
        allnodes = []

        def walk(ns):
            for x in ns:
                allnodes.append(x)
                walk(x["kids"])
        walk(top)
        nd = allnodes[ctx.choice("which", len(allnodes))]
        act = ctx.pick("act", ["hide", "fold", "content", "readd", "readdfold", "delete"])
        if act == "hide":
            card.select(nd["full"]).visible = False
            nd["visible"] = False
        elif act == "fold":
            card.select(nd["full"]).folded = True
            nd["folded"] = True
        elif act == "content":
            card.select(nd["full"]).content = "edited"
            nd["content"] = "edited"
        elif act in ("readd", "readdfold"):
            fo = act == "readdfold"
            card.add(folded=fo, **{nd["full"]: "again"})
            nd["content"] = "again"
            nd["folded"] = fo
        else:
            card.delete(nd["full"])

            def drop(ns):
                for x in list(ns):
                    if x is nd:
                        ns.remove(x)
                    else:
                        drop(x["kids"])
            drop(top)
        t1 = compare(ctx, card, top)
        ctx.check(card.render() == t1, "render twice differs")
        ctx.outcome = act
    return fn


def template_flags(n):
    def fn(ctx):
        reset_files()
        from skops.card import Card
        from sklearn.linear_model import LogisticRegression
        card = Card(LogisticRegression(), model_diagram=False)

        def conv(d, pre):
            out = []
            for k, s in d.items():
                full = pre + k
                nd = dict(title=s.title, content=s.content, folded=s.folded, visible=s.visible,
                          kind="table" if hasattr(s, "table") else "plain", full=full, sec=s)
                nd["kids"] = conv(s.subsections, full + "/")
                out.append(nd)
            return out
        top = conv(card._data, "")
        allnodes = []

        def walk(ns):
            for x in ns:
                allnodes.append(x)
                walk(x["kids"])
        walk(top)
        for nd in allnodes:
            if nd["kind"] == "table":
                nd["sec"].visible = False
                nd["visible"] = False
        allnodes = [nd for nd in allnodes if nd["kind"] != "table"]
        for i in range(n):
            nd = allnodes[ctx.choice(f"which{i}", len(allnodes))]
            nd["sec"].visible = nd["visible"] = ctx.bool(f"v{i}")
            nd["sec"].folded = nd["folded"] = ctx.bool(f"f{i}")
        compare(ctx, card, top)
        ctx.outcome = "ok"
    return fn


SHAPES = {"chain": lambda i: i, "star": lambda i: 0, "comb": lambda i: i if i % 2 == 0 else max(0, i - 1), "binary": lambda i: (i + 1) // 2,
          "zigzag": lambda i: 0 if i % 5 == 0 else i, "under one": lambda i: min(i, 1)}


def big(sizes):
    """Many sections; some of them (at symbolic places) hidden, folded, renamed, long, of another kind."""
    def fn(ctx):
        reset_files()
        card = new_card()
        shape = ctx.pick("shape", list(SHAPES))
        n = ctx.pick("n", sizes)
        if shape in ("chain", "comb"):
            n = min(n, 24)
        same = ctx.bool("same titles")
        h, g, k = ctx.choice("hidden", n + 1), ctx.choice("folded", n + 1), ctx.choice("odd", n + 1)
        odd = ctx.pick("what", ["plot", "long", "renamed", "empty", "table"])
        nodes, top = [], []
        for i in range(n):
            p = SHAPES[shape](i)
            title = "T" if same and not (p == 0 or shape in ("star", "under one", "binary")) else f"T{i}"
            nd = dict(title=title, content=f"body {i}\n\nmore", folded=i == g, visible=i != h, kids=[], kind="plain", path="p.png", alt=title)
            nd["full"] = title if p == 0 else nodes[p - 1]["full"] + "/" + title
            if any(x["title"] == title for x in (top if p == 0 else nodes[p - 1]["kids"])):
                nd["title"] = nd["alt"] = title = f"T{i}"
                nd["full"] = title if p == 0 else nodes[p - 1]["full"] + "/" + title
            (top if p == 0 else nodes[p - 1]["kids"]).append(nd)
            nodes.append(nd)
            if i == k:
                if odd in ("plot", "table"):
                    nd["kind"], nd["content"] = odd, "words"
                elif odd == "long":
                    nd["content"] = "\n".join(["a line of some words " * 60 + str(j) for j in range(40)])
                elif odd == "empty":
                    nd["content"] = ""
            if nd["kind"] == "plot":
                card.add_plot(description=nd["content"], folded=nd["folded"], **{nd["full"]: nd["path"]})
            elif nd["kind"] == "table":
                card.add_table(description=nd["content"], folded=nd["folded"], **{nd["full"]: {"c": [1]}})
            else:
                card.add(folded=nd["folded"], **{nd["full"]: nd["content"]})
        for i, nd in enumerate(nodes):
            s = card.select(nd["full"])
            s.visible = nd["visible"]
            if i == k and odd == "renamed":
                s.title = nd["title"] = "A title that is rather long " * 9 + "!"
        compare(ctx, card, top)
        ctx.outcome = shape
    return fn


def obligations(tier):
    q = tier == "quick"
    obs = [
        dict(name="tree-flags", fn=tree(4, ["plain"], "a", 0), time=70,
             bounds="4 sections, every tree shape, 2^8 visible/folded settings, titles over {x,#,e-acute}"),
        dict(name="tree-kinds", fn=tree(2, ["plain", "plot", "table"], "a\n", 1), time=60,
             bounds="2 sections of each kind, content 0..1 chars, every shape and flag setting"),
        dict(name="content", fn=tree(2 if q else 3, ["plain"], "a\n# \u00e9\r", 2), time=60 if q else 200,
             bounds="2 (3) sections, contents of 0..2 chars over newline, CR, #, blank, e-acute"),
        dict(name="rename", fn=tree(3, ["plain"], "a", 0, True, True), time=50,
             bounds="3 sections, title attribute edited after adding"),
        dict(name="late", fn=late_flags(4 if q else 5), time=60 if q else 200,
             bounds="4 (5) sections, one later edit: hide, fold, new content, re-add, delete"),
        dict(name="template", fn=template_flags(2 if q else 3), time=60 if q else 300,
             bounds="default skops template, flags of 2 (3) sections symbolic"),
    ]
    obs.append(dict(name="big", fn=big([7, 12, 40] if q else [5, 7, 8, 9, 12, 17, 30, 65, 120]), time=60 if q else 300,
                    bounds="7, 12, 40 (5..120) sections in 6 shapes (chains up to 24 deep); any one of them hidden, any one folded, any one renamed, "
                           "empty, long, plot or table"))
    if not q:
        obs.append(dict(name="tree-flags-5", fn=tree(5, ["plain"], "a", 0), time=600,
                        bounds="5 sections, every tree shape, 2^10 flag settings"))
    return obs


def prepare():
    from symx import fsm
    fsm.install()
