"""C14: card content builders put the right content under the right heading.

Symbolic: cell texts, column names, metric names/values/sequence, section paths, alt texts.
prettytable itself is executed symbolically too (it is instrumented like skops)."""
from direct import dataframe
from hlib import LINE, WIDE, new_card
from h_c09 import mk_path

INSTRUMENT = ["prettytable", "h_c09"]
ASSUMPTIONS = [
    "tables: non-empty dict/DataFrame with columns of equal length, string (or int) names",
    "markdown table rows are read as in GitHub flavoured markdown: cells separated by unescaped '|', "
    "surrounding blanks dropped, '\\|' read as '|'",
    "wcwidth of a symbolic character is taken from the wcwidth package, per character",
]


def cells(ctx, line):
    ctx.check(len(line) >= 2 and line[0] == "|" and line[-1] == "|", "table row is not a markdown row")
    out = []
    cur = ""
    i = 1
    n = len(line)
    while i < n:
        c = line[i]
        if c == "\\" and i + 1 < n and line[i + 1] == "|":
            cur = cur + "|"
            i += 2
            continue
        if c == "|":
            out.append(cur.strip(" "))
            cur = ""
        else:
            cur = cur + c
        i += 1
    return out


def br(text):
    return text.replace("\n", "<br />")


def parse_table(ctx, lines, ncols):
    """lines of one table -> (header, rows)"""
    ctx.check(len(lines) >= 2, "table: header or rule missing")
    head = cells(ctx, lines[0])
    rule = lines[1]
    for c in rule:
        ctx.check(c == "|" or c == ":" or c == "-" or c == " ", "table: second line is not a rule")
    rows = [cells(ctx, ln) for ln in lines[2:]]
    for r in rows:
        ctx.check(len(r) == ncols, "table: a row has the wrong number of cells")
    return head, rows


def check_table(ctx, text, names, columns, conv=br):
    """text: the rendered table; columns: list of lists of cell texts"""
    lines = text.split("\n")
    head, rows = parse_table(ctx, lines, len(names))
    ctx.check(len(head) == len(names), "table: wrong number of columns")
    for h, nm in zip(head, names):
        ctx.check(h == nm.strip(" "), "table: header differs from the column name")
    nrows = len(columns[0])
    ctx.check(len(rows) == nrows, "table: not one row per entry")
    for j, col in enumerate(columns):
        for i, v in enumerate(col):
            ctx.check(rows[i][j] == conv(v).strip(" "), "table: cell differs from the value's text")


def heading(parts):
    out = []
    for i, p in enumerate(parts):
        out.append("#" * (i + 1) + " " + p)
    return out


def nonblank(text):
    return [ln for ln in text.split("\n") if len(ln.strip()) > 0]


def table_cells(nc, nr, alpha, lo, hi, df):
    def fn(ctx):
        names = []
        for j in range(nc):
            names.append("n" + str(j) + ctx.str(f"name{j}", "a| ", 1, 1))
        cols = [[ctx.str(f"c{i}{j}", alpha, lo, hi) for i in range(nr)] for j in range(nc)]
        table = {}
        for nm, col in zip(names, cols):
            table[nm] = list(col)
        card = new_card()
        card.add_table(**{"Sec": table})
        text = card.select("Sec").format()
        if len(nonblank(alpha)) > 0 and "\r" in alpha:
            for c in text:
                ctx.check(not (c == "\r"), "table: carriage return left in the table")
            ctx.check(len(text.split("\n")) == nr + 2, "table: a line break in a value made a new row")
        else:
            check_table(ctx, text, names, cols)
        got = nonblank(card.render())
        ctx.check(got[0] == "# Sec", "table: heading")
        ctx.check(len(got) == 3 + nr, "table: rendered card has other lines")
        if df:
            card2 = new_card()
            card2.add_table(**{"Sec": dataframe(table)})
            ctx.check(card2.render() == card.render(), "table: dict and DataFrame input render differently")
        ctx.outcome = "ok"
    return fn


def titles(lo, hi):
    """plots whose titles have any characters; the alt text is the given one or the title"""
    def fn(ctx):
        t = ctx.str("t", "".join([c for c in LINE if c not in "/\\"]), lo, hi)
        ctx.assume(len(t.strip()) > 0)
        alt = ctx.str("alt", LINE, 1, hi) if ctx.bool("given") else None
        nest = ctx.bool("nest")
        raw = "q/" + t if nest else t
        card = new_card()
        kind = ctx.pick("kind", ["plot", "table", "metrics"])
        if kind == "plot":
            card.add_plot(alt_text=alt, **{raw: "f.png"})
        elif kind == "table":
            card.add_table(**{raw: {"c": [1]}})
        else:
            card.add_metrics(section=raw, m=1)
        s = card.select(raw)
        t = t.strip()
        ctx.check(s.title == t, "heading is not the last path part")
        if kind == "plot":
            ctx.check(s.format() == "![" + (t if alt is None else alt) + "](f.png)",
                      "add_plot: alt text is not the plot's own title (or the given one)")
        lines = card.render().split("\n")
        ctx.check(lines[3 if nest else 1] == ("## " if nest else "# ") + t, "rendered heading differs from the title")
        ctx.outcome = kind
    return fn


VALUES = [0, -7, 1.5, float("nan"), None, True, "x", "a\nb", "", " pad ", ["l", "\n"], {"k": "|"}, "\u65e5\u672c", "\t",
          (1, "q\nr"), "<br />", "--", ":", "#", "a\n\nb\n"]


def table_values(nc, nr):
    def fn(ctx):
        cols = [[ctx.pick(f"v{i}{j}", VALUES) for i in range(nr)] for j in range(nc)]
        intnames = ctx.bool("intnames")
        names = [j if intnames else f"n{j}" for j in range(nc)]
        table = {nm: list(c) for nm, c in zip(names, cols)}
        desc = ctx.pick("desc", [None, "words"])
        card = new_card()
        card.add_table(description=desc, **{"Sec": table})
        text = card.select("Sec").format()
        if desc is not None:
            ctx.check(text.startswith("words\n\n"), "table: description not before the table")
            text = text[len("words\n\n"):]
        check_table(ctx, text, [str(n) for n in names], [[str(v) for v in c] for c in cols],
                    conv=lambda s: br(s))
        how = ctx.choice("how", 3)
        if how > 0:
            other = tuple if how == 1 else None
            t2 = {nm: tuple(c) for nm, c in zip(names, cols)} if other else \
                dataframe({nm: c for nm, c in zip(names, cols)}, dtype=object)
            card2 = new_card()
            card2.add_table(description=desc, **{"Sec": t2})
            ctx.check(card2.render() == card.render(), "table: tuple/DataFrame input renders differently")
        ctx.outcome = "ok"
    return fn


def metrics(ncalls, per, two_sections, alpha=None):
    def fn(ctx):
        card = new_card()
        order = []
        vals = {}
        for k in range(ncalls):
            n = 1 + ctx.choice(f"n{k}", per)
            kw = {}
            for i in range(n):
                nm = ctx.pick(f"m{k}{i}", ["acc", "f1", "auc"]) if alpha is None else \
                    ctx.str(f"m{k}{i}", alpha, 1, 1) + "b"
                v = ctx.int(f"v{k}{i}", 0, 1)
                kw[nm] = v
            for nm, v in kw.items():
                if nm not in order:
                    order.append(nm)
                vals[nm] = v
            sec = ctx.pick(f"s{k}", ["Ev/Res", "Other"]) if two_sections else "Ev/Res"
            r = card.add_metrics(section=sec, description=f"d{k}", **kw)
            ctx.check(r is card, "add_metrics does not return the card")
            s = card.select(sec)
            ctx.check(s.title == sec.split("/")[-1], "add_metrics: heading is not the last path part")
            text = s.format()
            ctx.check(text.startswith(f"d{k}\n\n"), "add_metrics: description missing")
            lines = text.split("\n")[2:]
            head, rows = parse_table(ctx, lines, 2)
            ctx.check(head == ["Metric", "Value"], "add_metrics: header")
            ctx.check(len(rows) == len(order), "add_metrics: each metric must appear exactly once")
            for row, nm in zip(rows, order):
                ctx.check(row[0] == nm, "add_metrics: metrics not in first-seen order")
                ctx.check(row[1] == str(vals[nm]), "add_metrics: not the latest value")
        ctx.outcome = "ok"
    return fn


class Est:
    """An object with get_params, the only thing add_hyperparams needs of a model."""

    def __init__(self, shallow, deep):
        self.shallow, self.deep = shallow, deep

    def get_params(self, deep=True):
        return dict(self.deep) if deep else dict(self.shallow)


def hyperparams(n):
    def fn(ctx):
        from skops.card import Card
        deep = {}
        names = []
        for i in range(n):
            names.append(["z", "A", "m__x"][i] + (ctx.str(f"k{i}", "aA_", 0, 1) if i != 1 else ""))
            deep[names[-1]] = ctx.str(f"v{i}", "a\n|", 0, 2)
        card = Card(Est({names[0]: deep[names[0]]}, deep), template=None)
        raw, parts = mk_path(ctx, "p", 2, True)
        card.add_hyperparams(section=raw, description="words")
        s = card.select(raw)
        ctx.check(s.title == parts[-1], "add_hyperparams: heading is not the last path part")
        lines = s.format().split("\n")
        body = [ln for ln in lines if ln.startswith("|")]
        ctx.check(len(body) == n + 2, "add_hyperparams: not one row per parameter")
        head, rows = parse_table(ctx, body, 2)
        ctx.check(head == ["Hyperparameter", "Value"], "add_hyperparams: header")
        for r, nm in zip(rows, names):
            ctx.check(r[0] == nm, "add_hyperparams: parameter name")
            ctx.check(r[1] == br(deep[nm]).strip(" "), "add_hyperparams: parameter value")
        ctx.outcome = "ok"
    return fn


def real_hyperparams(ctx):
    from skops.card import Card
    from sklearn.linear_model import LogisticRegression
    from sklearn.pipeline import make_pipeline
    from sklearn.preprocessing import StandardScaler
    from sklearn.feature_extraction.text import CountVectorizer
    from sklearn.multiclass import OneVsRestClassifier
    m = ctx.pick("model", [LogisticRegression(C=3), make_pipeline(StandardScaler(), LogisticRegression()),
                           OneVsRestClassifier(LogisticRegression(penalty=None)),
                           CountVectorizer(token_pattern="a|b\n")])
    card = Card(m, template=None)
    raw, parts = mk_path(ctx, "p", 2, True)
    card.add_hyperparams(section=raw)
    body = [ln for ln in card.select(raw).format().split("\n") if ln.startswith("|")]
    params = m.get_params(deep=True)
    head, rows = parse_table(ctx, body, 2)
    ctx.check(len(rows) == len(params), "add_hyperparams: not one row per parameter")
    for r, (k, v) in zip(rows, params.items()):
        ctx.check(r[0] == k, "add_hyperparams: name differs from get_params")
        ctx.check(r[1] == br(str(v)).strip(" "), "add_hyperparams: value differs from get_params")
    ctx.outcome = "ok"


def placement(depth, rich):
    def fn(ctx):
        from skops.card import Card
        from sklearn.linear_model import LogisticRegression
        card = Card(LogisticRegression(), template=None)
        # something that must not be disturbed
        card.add(**{"zz": "other", "zz/a": "inner"})
        raw, parts = mk_path(ctx, "p", depth, rich)
        kind = ctx.pick("kind", ["plot", "table", "metrics", "hyper", "model", "frame"])
        desc = ctx.pick("desc", [None, "words"])
        if kind == "plot":
            card.add_plot(description=desc, **{raw: "f.png"})
            want = ["![" + parts[-1] + "](f.png)"]
        elif kind == "table":
            card.add_table(description=desc, **{raw: {"c": [1]}})
            want = None
        elif kind == "frame":
            card.add_table(description=desc, **{raw: dataframe({"c": [1]})})
            want = None
        elif kind == "metrics":
            card.add_metrics(section=raw, description=desc, m=1)
            want = None
        elif kind == "hyper":
            card.add_hyperparams(section=raw, description=desc)
            want = None
        else:
            card.add_model_plot(section=raw, description=desc)
            want = None
        s = card.select(raw)
        ctx.check(s.title == parts[-1], f"add_{kind}: heading is not the last path part")
        d = card._data
        for i, p in enumerate(parts):
            ks = [k for k in d.keys() if not (k == "zz")]
            ctx.check(len(ks) == 1, f"add_{kind}: section not placed at the given path")
            ctx.check(ks[0] == p, f"add_{kind}: section not placed at the given path")
            sec = d[ks[0]]
            ctx.check(sec.title == p, f"add_{kind}: heading of an ancestor")
            if i < len(parts) - 1:
                ctx.check(sec.content == "", f"add_{kind}: created ancestor has content")
            d = sec.subsections
        ctx.check(len(d) == 0, f"add_{kind}: placed too high")
        got = nonblank(card.render())
        k = 3 if got[1] == "other" else 0
        ctx.check(got[:4] == ["# zz", "other", "## a", "inner"], f"add_{kind}: other sections disturbed")
        got = got[4:]
        hs = heading(parts)
        ctx.check(len(got) > len(hs), f"add_{kind}: nothing rendered")
        for g, h in zip(got, hs):
            ctx.check(g == h, f"add_{kind}: rendered heading differs from the path")
        rest = got[len(hs):]
        if desc is not None:
            ctx.check(rest[0] == "words", f"add_{kind}: description is not the first thing in the section")
            rest = rest[1:]
        for ln in rest:
            ctx.check(not (ln == "words"), f"add_{kind}: description twice or without being given")
        if want is not None:
            ctx.check(rest == want, f"add_{kind}: content of the section")
        elif kind == "model":
            ctx.check("sk-top-container" in rest[0] or "LogisticRegression" in "".join(rest), "add_model_plot: no diagram")
        else:
            body = [ln for ln in rest if ln.startswith("|")]
            names = {"metrics": ["Metric", "Value"], "hyper": ["Hyperparameter", "Value"]}.get(kind, ["c"])
            head, rows = parse_table(ctx, body, len(names))
            ctx.check(head == names, f"add_{kind}: table header")
            first = {"metrics": ["m", "1"], "hyper": ["C", "1.0"]}.get(kind, ["1"])
            ctx.check(rows[0] == first, f"add_{kind}: table row")
        ctx.outcome = kind
    return fn


def snap(d):
    return [(k, type(s).__name__, s.title, s.content, s.format(), s.folded, s.visible, snap(s.subsections))
            for k, s in d.items()]


def several(n):
    def fn(ctx):
        kind = ctx.pick("kind", ["plot", "table", "text", "metrics"])
        desc = ctx.pick("desc", [None, "words"])
        folded = ctx.bool("folded")
        items = {}
        for i in range(n):
            raw, parts = mk_path(ctx, f"p{i}", 2, False)
            items[raw] = (i, parts)
        a, b = new_card(), new_card()
        if kind == "plot":
            alt = ctx.pick("alt", [None, "given"])
            a.add_plot(description=desc, alt_text=alt, folded=folded, **{r: f"f{i}.png" for r, (i, _) in items.items()})
            for r, (i, parts) in items.items():
                b.add_plot(description=desc, alt_text=alt, folded=folded, **{r: f"f{i}.png"})
            for r, (i, parts) in items.items():
                want = "![" + (parts[-1] if alt is None else alt) + f"](f{i}.png)"
                ctx.check(want in a.select(r).format(), "add_plot: alt text is not the plot's own title (or the given one)")
        elif kind == "table":
            tabs = {r: {"c": [f"cell{i}"]} for r, (i, _) in items.items()}
            a.add_table(description=desc, folded=folded, **tabs)
            for r, t in tabs.items():
                b.add_table(description=desc, folded=folded, **{r: t})
            for r, (i, parts) in items.items():
                ctx.check(f"cell{i}" in a.select(r).format(), "add_table: wrong table at the path")
        elif kind == "text":
            a.add(folded=folded, **{r: f"t{i}" for r, (i, _) in items.items()})
            for r, (i, _) in items.items():
                b.add(folded=folded, **{r: f"t{i}"})
        else:
            names = [ctx.pick(f"m{i}", ["x", "y"]) for i in range(n)]
            kw = {}
            for i, nm in enumerate(names):
                kw[nm] = i
            a.add_metrics(description=desc, **kw)
            for nm, v in kw.items():
                b.add_metrics(description=desc, **{nm: v})
        ctx.check(snap(a._data) == snap(b._data), "several items in one call differ from one at a time")
        ctx.check(a.render() == b.render(), "several items in one call render differently from one at a time")
        ctx.outcome = kind
    return fn


def large(sizes):
    """Tables of many rows or columns with one special cell, many metrics."""
    def fn(ctx):
        kind = ctx.pick("kind", ["table", "frame", "metrics"])
        nr, nc = ctx.pick("size", sizes)
        i, j = ctx.choice("row", nr), ctx.choice("column", nc)
        sp = ctx.pick("cell", ["sym", "long", "lines", "empty"])
        v = ctx.str("v", "a\n|\\ ", 1, 2) if sp == "sym" else {"long": "word " * 100 + "end", "lines": "\n".join("abcdefghijkl"), "empty": ""}[sp]
        card = new_card()
        if kind == "metrics":
            names = [f"m{x}" for x in range(nr)]
            vals = {nm: x / 7 if x % 2 else x * 10 ** 9 for x, nm in enumerate(names)}
            once = ctx.bool("one call")
            if once:
                card.add_metrics(**vals)
            else:
                for nm in names:
                    card.add_metrics(**{nm: vals[nm]})
            card.add_metrics(**{names[i]: v})
            vals[names[i]] = v
            s = next(iter(card._data.values()))
            while s.subsections:
                s = next(iter(s.subsections.values()))
            lines = [ln for ln in s.format().split("\n") if ln.startswith("|")]
            check_table(ctx, "\n".join(lines), ["Metric", "Value"], [names, [str(vals[nm]) for nm in names]])
        else:
            names = [f"n{c}" for c in range(nc)]
            cols = [[f"r{r}c{c}" for r in range(nr)] for c in range(nc)]
            cols[j][i] = v
            table = {nm: list(c) for nm, c in zip(names, cols)}
            if kind == "frame":
                if sp != "sym":
                    table = dataframe(table)
            card.add_table(**{"Sec": table})
            check_table(ctx, card.select("Sec").format(), names, cols)
        ctx.outcome = kind
    return fn


def obligations(tier):
    q = tier == "quick"
    return [
        dict(name="cells", fn=table_cells(1, 1, "a\n|\\ ", 0, 3 if q else 4, False), time=60 if q else 250,
             bounds="1 column x 1 row, cell of 0..3 (4) chars over a, newline, |, backslash, blank; name chars a,|,blank"),
        dict(name="large", fn=large([(12, 1), (2, 12), (35, 3)] if q else [(12, 1), (1, 12), (2, 30), (35, 3), (130, 2)]), time=60 if q else 250,
             bounds="tables of 12x1, 2x12, 35x3 (130x2) cells or 12, 35 metrics, any one of them symbolic (1..2 chars), long, of many lines or empty"),
        dict(name="cells-wide", fn=table_cells(1, 1, WIDE, 0, 2, False), time=60 if q else 250,
             bounds="1 column x 1 row, cell of 0..2 arbitrary characters"),
        dict(name="cells-2x2", fn=table_cells(2, 1 if q else 2, "a\n|", 0, 1, True), time=60 if q else 300,
             bounds="2 columns x 1 (2) rows, cells of 0..1 chars, dict and DataFrame"),
        dict(name="cells-2rows", fn=table_cells(1, 2, "a\n\u65e5", 0, 2, True), time=60 if q else 200,
             bounds="1 column x 2 rows, cells of 0..2 chars incl. wide ones, dict and DataFrame"),
        dict(name="cells-cr", fn=table_cells(1, 2, "a\n\r", 0, 2, False), time=40,
             bounds="1 column x 2 rows, cells with CR / LF combinations"),
        dict(name="values", fn=table_values(1 if q else 2, 2), time=70 if q else 300,
             bounds=f"{len(VALUES)} typed values per cell, str/int names, dict of lists/tuples/DataFrame"),
        dict(name="metrics", fn=metrics(3 if q else 4, 1 if q else 2, False), time=70 if q else 300,
             bounds="3 (4) calls of 1 (1..2) metrics over 3 names, values 0..1"),
        dict(name="metrics-sections", fn=metrics(2 if q else 3, 2, True), time=50 if q else 200,
             bounds="2 (3) calls on 2 sections"),
        dict(name="metrics-names", fn=metrics(3, 1 if q else 2, False, "aA_B-0"), time=60 if q else 250,
             bounds="3 calls of 1 (1..2) metrics with names of 2 characters, the first one of aA_B-0"),
        dict(name="titles", fn=titles(1, 2 if q else 3), time=60 if q else 250,
             bounds="titles and alt texts of 1..2 (3) arbitrary characters (all of printable ASCII, blanks, controls, "
                    "combining, wide, astral), top level or nested, plots/tables/metrics"),
        dict(name="hyperparams", fn=hyperparams(2 if q else 3), time=60 if q else 200,
             bounds="2 (3) parameters with symbolic values, decorated paths of depth <= 2"),
        dict(name="hyperparams-real", fn=real_hyperparams, time=40, bounds="4 scikit-learn models, decorated paths"),
        dict(name="placement", fn=placement(2 if q else 3, True), time=70 if q else 300,
             bounds="6 builders, paths of depth <= 2 (3) with blanks and escaped slashes, description or none"),
        dict(name="several", fn=several(2 if q else 3), time=60 if q else 200,
             bounds="2 (3) items per call over 4 builders, paths of depth <= 2, alt text / description / folded"),
    ]
