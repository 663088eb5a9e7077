"""C15: a parsed document yields a card with the same outline and content.

Symbolic: header levels, header texts, block kinds and their nesting."""
from hlib import json_text

INSTRUMENT = ["prettytable"]
ASSUMPTIONS = [
    "documents start with a header (content before the first header belongs to no section; the parser "
    "documents that it refuses it)",
    "header texts are one line; inline text does not itself spell a markdown heading",
    "tables without captions and without row/column spans; figures with one image",
    "block content: every text token of the block must appear exactly once and in order in the section's "
    "content, and the content must equal the independent conversion of the blocks by a fresh converter, "
    "joined by blank lines",
]


def Str(s):
    return {"t": "Str", "c": s}


def plain(items):
    return {"t": "Plain", "c": items}


ATTR = ["", [], []]


class Tok:
    def __init__(self):
        self.n = 0
        self.all = []

    def new(self):
        self.n += 1
        t = f"<w{self.n}>"
        self.all.append(t)
        return t


INLINES = ["str", "two", "strong", "emph", "strike", "code", "link", "quote", "raw", "soft", "image", "line"]


def inline(ctx, name, tok, kinds, depth=1):
    k = ctx.pick(name, kinds)
    if k == "str":
        return [Str(tok.new())]
    if k == "two":
        return [Str(tok.new()), {"t": "Space"}, Str(tok.new())]
    if k == "soft":
        return [Str(tok.new()), {"t": "SoftBreak"}, Str(tok.new())]
    if k == "line":
        return [Str(tok.new()), {"t": "LineBreak"}, Str(tok.new())]
    if k == "code":
        return [{"t": "Code", "c": [ATTR, tok.new()]}]
    if k == "raw":
        return [{"t": "RawInline", "c": ["html", tok.new()]}]
    if k == "image":
        return [{"t": "Image", "c": [ATTR, [Str(tok.new())], ["x.png", "fig:"]]}]
    inner = inline(ctx, name + "i", tok, ["str", "two"]) if depth > 1 else [Str(tok.new())]
    if k == "strong":
        return [{"t": "Strong", "c": inner}]
    if k == "emph":
        return [{"t": "Emph", "c": inner}]
    if k == "strike":
        return [{"t": "Strikeout", "c": inner}]
    if k == "link":
        return [{"t": "Link", "c": [ATTR, inner, ["http://x", ""]]}]
    q = {"t": "DoubleQuote"} if ctx.bool(name + "q") else {"t": "SingleQuote"}
    return [{"t": "Quoted", "c": [q, inner]}]


def cell(text):
    return [ATTR, {"t": "AlignDefault"}, 1, 1, [plain([Str(text)])] if text else []]


def table_new(ctx, name, tok, maxdim):
    nc = 1 + ctx.choice(name + "c", maxdim)
    nh = ctx.choice(name + "h", 3)            # header rows
    same = ctx.bool(name + "same") if nh == 1 else False
    rows = []
    for r in range(nh):
        rows.append([ATTR, [cell("SAME" if same else tok.new()) for _ in range(nc)]])
    groups = []
    ng = 1 + ctx.choice(name + "g", 2)
    for g in range(ng):
        nr = 1 if ng > 1 else ctx.choice(name + f"r{g}", maxdim + 1)
        groups.append([ATTR, 0, [], [[ATTR, [cell(tok.new()) for _ in range(nc)]] for _ in range(nr)]])
    foot = []
    if nh == 1 and ng == 1 and ctx.bool(name + "f"):
        foot = [[ATTR, [cell(tok.new()) for _ in range(nc)]]]
    return {"t": "Table", "c": [ATTR, [None, []], [[{"t": "AlignDefault"}, {"t": "ColWidthDefault"}]] * nc,
                                [ATTR, rows], groups, [ATTR, foot]]}, (nc if same else 0)


def table_old(ctx, name, tok, maxdim):
    nc = 1 + ctx.choice(name + "c", maxdim)
    same = ctx.bool(name + "same")
    head = [[plain([Str("SAME" if same else tok.new())])] for _ in range(nc)]
    nr = ctx.choice(name + "r", maxdim + 1)
    body = [[[plain([Str(tok.new())])] for _ in range(nc)] for _ in range(nr)]
    return {"t": "Table", "c": [[], [{"t": "AlignDefault"}] * nc, [0] * nc, head, body]}, (nc if same else 0)


BLOCKS = ["para", "code", "raw", "bullet", "ordered", "quote", "div", "figure", "table", "tableold", "plain"]


def block(ctx, name, tok, kinds, inl, depth, dim=2):
    """pandoc block + number of SAME cells"""
    k = ctx.pick(name, kinds)
    if k == "para":
        return {"t": "Para", "c": inline(ctx, name + ".i", tok, inl)}, 0
    if k == "plain":
        return plain(inline(ctx, name + ".i", tok, inl)), 0
    if k == "code":
        cl = ["python"] if ctx.bool(name + ".cl") else []
        return {"t": "CodeBlock", "c": [["", cl, []], tok.new() + "\n  " + tok.new()]}, 0
    if k == "raw":
        return {"t": "RawBlock", "c": ["html", tok.new()]}, 0
    if k == "table":
        return table_new(ctx, name + ".t", tok, dim)
    if k == "tableold":
        return table_old(ctx, name + ".t", tok, dim)
    if k == "figure":
        img = {"t": "Image", "c": [ATTR, [Str(tok.new())], ["x.png", ""]]}
        return {"t": "Figure", "c": [ATTR, [None, []], [plain([img])]]}, 0
    inner = ["plain"] if depth <= 1 else [x for x in ["plain", "bullet", "ordered", "code", "quote"]]
    n = 1 + ctx.choice(name + ".n", 2)
    items = []
    for j in range(n):
        b, _ = block(ctx, f"{name}.{j}", tok, ["plain"] if j == 0 else inner,
                     inl if j == 0 else ["str"], depth - 1)
        items.append(b)
    if k == "bullet":
        if depth > 1 and n == 2:
            return {"t": "BulletList", "c": [items]}, 0
        return {"t": "BulletList", "c": [[b] for b in items]}, 0
    if k == "ordered":
        start = 1 + ctx.choice(name + ".s", 2) * 8
        its = [items] if depth > 1 and n == 2 else [[b] for b in items]
        return {"t": "OrderedList", "c": [[start, {"t": "Decimal"}, {"t": "Period"}], its]}, 0
    if k == "quote":
        return {"t": "BlockQuote", "c": items}, 0
    kv = [["hidden", ""], ["k", "v"]] if ctx.bool(name + ".kv") else []
    return {"t": "Div", "c": [["id", ["cls"], kv], items]}, 0


def fresh(b):
    from skops.card._markup import Markdown
    return Markdown()(b)


def parse(blocks):
    from skops.card._parser import PandocParser
    return PandocParser(json_text({"pandoc-api-version": [1, 23], "meta": {}, "blocks": blocks})).generate()


def header(level, inl):
    return {"t": "Header", "c": [level, ["id", [], []], inl]}


def check_tokens(ctx, content, toks, nsame):
    pos = 0
    for t in toks:
        ctx.check(content.count(t) == 1, "a block's text does not appear exactly once in its section")
        p = content.find(t)
        ctx.check(p >= pos, "text of the blocks is not in document order")
        pos = p
    if nsame:
        ctx.check(content.count("SAME") == nsame, "table columns of equal name are lost")


def nonblank(text):
    return [ln for ln in text.split("\n") if len(ln.strip()) > 0]


def esc(t):
    return t.replace("\\", "\\\\")


def compare_tree(ctx, d, nodes, want, depth):
    secs = list(d.values())
    ctx.check(len(secs) == len(nodes), "not one section per header at its place")
    for s, nd in zip(secs, nodes):
        t = s.title
        ctx.check(t == nd["title"] or t == esc(nd["title"]), "section title differs from the header's text")
        ctx.check(s.content == nd["content"], "content of a section differs from the blocks after its header")
        want.append((depth, t, nd["content"]))
        compare_tree(ctx, s.subsections, nd["kids"], want, depth + 1)


def outline(n, maxlev, alpha, lo, hi, dup):
    def fn(ctx):
        blocks = []
        top = []
        trace = []
        for i in range(n):
            lev = ctx.int(f"level{i}", 1, maxlev)
            if dup:
                title = ctx.str(f"title{i}", alpha, lo, hi)
            else:
                title = f"T{i}" + ctx.str(f"title{i}", alpha, lo, hi)
            nb = ctx.choice(f"nb{i}", 2) if n <= 3 else 1
            nd = dict(title=title, content=f"body{i}" if nb else "", kids=[])
            blocks.append(header(lev, [Str(title)]))
            if nb:
                blocks.append({"t": "Para", "c": [Str(f"body{i}")]})
            while len(trace) > 0 and trace[-1][0] >= lev:
                trace.pop()
            (trace[-1][1]["kids"] if len(trace) > 0 else top).append(nd)
            trace.append((lev, nd))
        card = parse(blocks)
        want = []
        compare_tree(ctx, card._data, top, want, 1)
        lines = nonblank(card.render())
        exp = []
        for dep, t, c in want:
            exp.append("#" * dep + " " + t)
            if len(c) > 0:
                exp.append(c)
        ctx.check(len(lines) == len(exp), "rendering the parsed card gives another outline")
        for a, b in zip(lines, exp):
            ctx.check(a.strip() == b.strip(), "rendering the parsed card gives another outline")
        tl = card.get_toc().split("\n")
        ctx.check(len(tl) == n, "get_toc of the parsed card does not list one entry per header")
        ctx.outcome = "ok"
    return fn


def blocks_in_order(n, kinds, inl, depth, two, dim=2):
    def fn(ctx):
        tok = Tok()
        bl = []
        same = 0
        for i in range(n):
            b, s = block(ctx, f"b{i}", tok, kinds, inl, depth, dim)
            bl.append(b)
            same += s
        h = inline(ctx, "h", Tok(), ["str", "two", "strong", "code"] if two else ["str"])
        doc = [header(1, h), *bl]
        extra = []
        if two:
            doc += [header(2, [Str("second")]), {"t": "Para", "c": [Str("tail")]}]
        ref = [fresh(b) for b in bl]
        card = parse(doc)
        keys = list(card._data.keys())
        ctx.check(len(keys) == 1, "one header must give one section")
        s = card._data[keys[0]]
        ctx.check(s.title == "".join([fresh(x) for x in h]), "title differs from the header's text")
        ctx.check(s.content == "\n\n".join(ref), "content differs from the blocks' own conversion, in order")
        check_tokens(ctx, s.content, tok.all, same)
        if two:
            sub = list(s.subsections.values())
            ctx.check(len(sub) == 1, "second header lost")
            ctx.check(sub[0].content == "tail", "content of the second section")
        ctx.check(fresh(bl[0]) == ref[0], "conversion is not deterministic")
        ctx.outcome = "ok"
    return fn


BAD = [{"t": "Null"}, {"t": "BulletList", "c": [[{"t": "Null"}]]},
       {"t": "OrderedList", "c": [[1, {"t": "Decimal"}, {"t": "Period"}],
                                  [[plain([Str("x")])], [{"t": "BulletList", "c": [[{"t": "HorizontalRule"}]]}]]]},
       {"t": "Div", "c": [ATTR, [{"t": "Null"}]]},
       {"t": "BlockQuote", "c": [{"t": "BulletList", "c": [[{"t": "Math"}]]}]},
       {"t": "Para", "c": [{"t": "Image", "c": [ATTR, [Str("x")], ["x.png", "notfig"]]}]},
       {"t": "Table", "c": []}]


def independence(n, kinds, inl, depth, dim=2, nbad=len(BAD)):
    """one converter, several conversions (some failing): each equals a fresh conversion"""
    def fn(ctx):
        from skops.card._markup import Markdown
        m = Markdown()
        for i in range(n):
            bad = ctx.choice(f"bad{i}", nbad + 1)
            if bad > 0:
                try:
                    m(BAD[bad - 1])
                except Exception:
                    pass
            b, _ = block(ctx, f"b{i}", Tok(), kinds, inl, depth, dim)
            got = m(b)
            ctx.check(got == fresh(b), "conversion depends on what was converted before")
        ctx.outcome = "ok"
    return fn


def embed(ctx, name, x):
    """a container with x in it"""
    k = ctx.pick(name, ["bullet", "ordered", "quote", "div", "item2", "nested"])
    if k == "bullet":
        return {"t": "BulletList", "c": [[x]]}
    if k == "ordered":
        return {"t": "OrderedList", "c": [[1, {"t": "Decimal"}, {"t": "Period"}], [[x]]]}
    if k == "quote":
        return {"t": "BlockQuote", "c": [x]}
    if k == "div":
        return {"t": "Div", "c": [["id", [], []], [x]]}
    if k == "item2":
        return {"t": "BulletList", "c": [[plain([Str("first")]), x]]}
    return {"t": "BulletList", "c": [[plain([Str("first")]), {"t": "OrderedList", "c": [
        [1, {"t": "Decimal"}, {"t": "Period"}], [[x]]]}]]}


def shared(kinds, inl, depth, n):
    """the same element at different places, converted by one converter or in one document"""
    def fn(ctx):
        from skops.card._markup import Markdown
        x, _ = block(ctx, "x", Tok(), kinds, inl, depth, 1)
        seq = [x if ctx.bool(f"bare{i}") else embed(ctx, f"e{i}", x) for i in range(n)]
        want = [fresh(b) for b in seq]
        m = Markdown()
        for b, w in zip(seq, want):
            ctx.check(m(b) == w, "conversion depends on what was converted before")
        card = parse([header(1, [Str("h")]), *seq])
        ctx.check(card.select("h").content == "\n\n".join(want), "conversion depends on the rest of the document")
        ctx.outcome = "ok"
    return fn


def big(sizes):
    """Many headers after a pattern with two symbolic levels, long blocks, lists of many items."""
    def fn(ctx):
        n = ctx.pick("n", sizes)
        pat = ctx.pick("pattern", [[1], [1, 2], [1, 2, 3, 4, 5, 6], [6, 5, 4, 3, 2, 1], [1, 3, 2], [2, 2, 4, 1, 6]])
        lv = [pat[i % len(pat)] for i in range(n)]
        lv[ctx.choice("at", n)] = ctx.int("level", 1, 6)
        k = ctx.choice("long at", n)
        what = ctx.pick("what", ["words", "bullet", "ordered", "many", "none"])
        blocks, top, trace = [], [], []
        for i in range(n):
            nd = dict(title=f"T{i}", content=f"body{i}", kids=[])
            bl = [{"t": "Para", "c": [Str(f"body{i}")]}]
            if i == k:
                bl = {"words": lambda: [{"t": "Para", "c": [x for j in range(300) for x in (Str(f"w{j}"), {"t": "Space"})][:-1]}],
                      "bullet": lambda: [{"t": "BulletList", "c": [[plain([Str(f"i{j}")])] for j in range(12)]}],
                      "ordered": lambda: [{"t": "OrderedList", "c": [[1, {"t": "Decimal"}, {"t": "Period"}], [[plain([Str(f"i{j}")])] for j in range(12)]]}],
                      "many": lambda: [{"t": "Para", "c": [Str(f"p{j}")]} for j in range(12)], "none": lambda: []}[what]()
                nd["content"] = {"words": lambda: " ".join(f"w{j}" for j in range(300)), "bullet": lambda: "\n".join(f"- i{j}" for j in range(12)),
                                 "ordered": lambda: "\n".join(f"{j + 1}. i{j}" for j in range(12)),
                                 "many": lambda: "\n\n".join(f"p{j}" for j in range(12)), "none": lambda: ""}[what]()
                ctx.check("\n\n".join([fresh(b) for b in bl]).split() == nd["content"].split(), "a block of many parts is not converted in full")
                nd["content"] = "\n\n".join([fresh(b) for b in bl])
            blocks += [header(lv[i], [Str(f"T{i}")]), *bl]
            while trace and trace[-1][0] >= lv[i]:
                trace.pop()
            (trace[-1][1]["kids"] if trace else top).append(nd)
            trace.append((lv[i], nd))
        card = parse(blocks)
        compare_tree(ctx, card._data, top, [], 1)
        ctx.check(len(card.get_toc().split("\n")) == n, "get_toc of the parsed card does not list one entry per header")
        ctx.outcome = what
    return fn


def obligations(tier):
    q = tier == "quick"
    inl = INLINES
    return [
        dict(name="outline", fn=outline(3 if q else 4, 4 if q else 5, "a/", 0, 1, False), time=60 if q else 300,
             bounds="3 (4) headers, levels 1..4 (5), titles with a symbolic suffix over a,/; body or none"),
        dict(name="big", fn=big([8, 30] if q else [7, 8, 13, 30, 80]), time=60 if q else 250,
             bounds="8, 30 (7..80) headers after 6 patterns of levels with any one of them symbolic; one section of 300 words, 12 items or 12 paragraphs"),
        dict(name="titles", fn=outline(2, 2, "a/\\ #*" if q else "a/\\ #*_1\u00e9.", 1, 3 if q else 3, True), time=60 if q else 300,
             bounds="2 headers, titles of 1..3 chars over a / \\ blank # * (may be equal)"),
        dict(name="outline-deep", fn=outline(4 if q else 5, 6, "a", 0, 0, False), time=70 if q else 300,
             bounds="4 (5) headers, levels 1..6"),
        dict(name="duplicates", fn=outline(3 if q else 4, 2, "ab", 1, 1, True), time=50 if q else 200,
             bounds="3 (4) headers with possibly equal one-letter titles, levels 1..2"),
        dict(name="blocks-1", fn=blocks_in_order(1, BLOCKS, inl, 1, True), time=60,
             bounds="one block of any kind with any inline element, second header after it"),
        dict(name="blocks-2", fn=blocks_in_order(2, BLOCKS, ["str"] if q else ["str", "soft"], 1, False, 1 if q else 2), time=70 if q else 300,
             bounds="two blocks of any kind"),
        dict(name="blocks-nested", fn=blocks_in_order(1, ["bullet", "ordered", "quote", "div"], ["str", "soft"],
                                                      3 if q else 4, False), time=70 if q else 300,
             bounds="lists/quotes/divs nested to depth 3 (4)"),
        dict(name="independence", fn=independence(1 if q else 2, BLOCKS, ["str", "soft"], 2), time=60 if q else 300,
             bounds=f"1 (2) conversions, each possibly after one of {len(BAD)} failing ones, on one converter"),
        dict(name="shared", fn=shared(["para", "bullet", "quote", "code", "plain"], ["str", "soft", "line"], 1, 2 if q else 3),
             time=60 if q else 300,
             bounds="the same block bare or inside of 6 containers, 2 (3) times in one document and on one converter"),
        dict(name="independence-2", fn=independence(2, ["para", "bullet", "table", "code", "quote", "figure"],
                                                    ["str"], 1, 1, 2 if q else len(BAD)), time=70 if q else 300,
             bounds="two conversions on one converter"),
    ]


def prepare():
    from symx import jsonm
    jsonm.install()
