"""A small backtracking regex matcher over SymStr (used only when the subject is
symbolic; every character test forks)."""
from __future__ import annotations

import re

from .values import SymStr, ch_pred, chars, mkstr, realize

import re._parser as sp  # type: ignore
import re._constants as sc  # type: ignore


def _cat(c):
    return {
        sc.CATEGORY_SPACE: str.isspace,
        sc.CATEGORY_NOT_SPACE: lambda x: not x.isspace(),
        sc.CATEGORY_DIGIT: str.isdigit,
        sc.CATEGORY_NOT_DIGIT: lambda x: not x.isdigit(),
        sc.CATEGORY_WORD: lambda x: x.isalnum() or x == "_",
        sc.CATEGORY_NOT_WORD: lambda x: not (x.isalnum() or x == "_"),
    }[c]


def _in(av):
    neg = False
    preds = []
    for op, a in av:
        if op is sc.NEGATE:
            neg = True
        elif op is sc.LITERAL:
            preds.append(lambda x, a=a: ord(x) == a)
        elif op is sc.RANGE:
            preds.append(lambda x, a=a: a[0] <= ord(x) <= a[1])
        elif op is sc.CATEGORY:
            preds.append(_cat(a))
        else:
            raise NotImplementedError(op)
    return (lambda x: not any(p(x) for p in preds)) if neg else (lambda x: any(p(x) for p in preds))


def _m(items, k, ch, i, g, cont, fl):
    """match items[k:] at i, then continuation"""
    if k == len(items):
        return cont(i, g)
    op, av = items[k]
    nxt = lambda j, gg: _m(items, k + 1, ch, j, gg, cont, fl)  # noqa
    if op is sc.LITERAL or op is sc.NOT_LITERAL or op is sc.IN or op is sc.ANY:
        if i >= len(ch):
            return None
        if op is sc.LITERAL:
            p = lambda x: ord(x) == av  # noqa
        elif op is sc.NOT_LITERAL:
            p = lambda x: ord(x) != av  # noqa
        elif op is sc.IN:
            p = _in(av)
        else:
            p = (lambda x: True) if fl & re.S else (lambda x: x != "\n")
        return nxt(i + 1, g) if ch_pred(ch[i], p) else None
    if op in (sc.MAX_REPEAT, sc.MIN_REPEAT):
        lo, hi, sub = av
        sub = list(sub)

        def rep(n, j, gg):
            def more():
                if n >= hi:
                    return None
                return _m(sub, 0, ch, j, gg,
                          lambda e, g2: rep(n + 1, e, g2) if e > j else None, fl)
            if n < lo:
                return more()
            if op is sc.MAX_REPEAT:
                r = more()
                return r if r is not None else nxt(j, gg)
            r = nxt(j, gg)
            return r if r is not None else more()

        return rep(0, i, g)
    if op is sc.SUBPATTERN:
        gid, af, df, p = av
        return _m(list(p), 0, ch, i, g,
                  lambda j, gg: nxt(j, {**gg, gid: (i, j)} if gid else gg), fl)
    if op is sc.BRANCH:
        for b in av[1]:
            r = _m(list(b), 0, ch, i, g, nxt, fl)
            if r is not None:
                return r
        return None
    if op is sc.AT:
        if av in (sc.AT_BEGINNING, sc.AT_BEGINNING_STRING):
            ok = i == 0 or (av is sc.AT_BEGINNING and fl & re.M and ch_pred(ch[i - 1], lambda x: x == "\n"))
        elif av in (sc.AT_END, sc.AT_END_STRING):
            ok = i == len(ch) or (av is sc.AT_END and i == len(ch) - 1 and
                                  ch_pred(ch[i], lambda x: x == "\n")) or (
                av is sc.AT_END and fl & re.M and ch_pred(ch[i], lambda x: x == "\n"))
        else:
            raise NotImplementedError(av)
        return nxt(i, g) if ok else None
    if op in (sc.ASSERT, sc.ASSERT_NOT):
        d, p = av
        if d < 0:
            w = p.getwidth()
            if w[0] != w[1]:
                raise NotImplementedError("lookbehind")
            st = i - w[0]
            r = None if st < 0 else _m(list(p), 0, ch, st, g, lambda j, gg: (j, gg), fl)
        else:
            r = _m(list(p), 0, ch, i, g, lambda j, gg: (j, gg), fl)
        ok = (r is not None) == (op is sc.ASSERT)
        return nxt(i, g) if ok else None
    if op is sc.GROUPREF:
        if av not in g:
            return None
        a, b = g[av]
        from .values import match_at
        return nxt(i + b - a, g) if match_at(ch, i, ch[a:b]) else None
    raise NotImplementedError(op)


class Match:
    _sx_direct = True

    def __init__(self, ch, i, j, g, pat):
        self.ch, self.i, self.j, self.g, self.pat = ch, i, j, g, pat

    def group(self, *k):
        if not k:
            k = (0,)
        out = []
        for q in k:
            if q == 0:
                out.append(mkstr(self.ch[self.i:self.j]))
                continue
            if isinstance(q, str):
                q = self.pat.groupindex[q]
            out.append(mkstr(self.ch[slice(*self.g[q])]) if q in self.g else None)
        return out[0] if len(out) == 1 else tuple(out)

    __getitem__ = group

    def groups(self, default=None):
        return tuple(self.group(q) if q in self.g else default
                     for q in range(1, self.pat.groups + 1))

    def start(self, k=0):
        return self.i if k == 0 else self.g[k][0]

    def end(self, k=0):
        return self.j if k == 0 else self.g[k][1]

    def span(self, k=0):
        return (self.start(k), self.end(k))

    def __bool__(self):
        return True


def _comp(pat, flags):
    if isinstance(pat, re.Pattern):
        return pat, sp.parse(pat.pattern, pat.flags & ~re.U), pat.flags
    p = re.compile(realize(pat), flags)
    return p, sp.parse(p.pattern, flags), p.flags


def _at(pp, ch, i):
    p, tree, fl = pp
    r = _m(list(tree), 0, ch, i, {}, lambda j, g: (j, g), fl)
    return None if r is None else Match(ch, i, r[0], r[1], p)


def _iter(pp, ch):
    i = 0
    last = -1
    while i <= len(ch):
        m = _at(pp, ch, i)
        if m is not None and not (m.i == m.j and m.j == last):
            yield m
            last = m.j
            i = m.j if m.j > m.i else i + 1
        else:
            i += 1


def re_sub(pat, rep, s, count=0, flags=0):
    if type(s) is not SymStr:
        return re.sub(realize(pat) if isinstance(pat, str) else pat, rep, realize(s), count, flags)
    out, pos, n = [], 0, 0
    pp = _comp(pat, flags)
    if isinstance(rep, str) and "\\" in rep:
        rr = realize(rep)
        tmpl = sp.parse_template(rr, pp[0])

        def repf(m):
            o = []
            for t in tmpl:
                o.extend(chars(t) if isinstance(t, str) else chars(m.group(t) or ""))
            return mkstr(o)
    elif isinstance(rep, str):
        repf = lambda m: rep  # noqa
    else:
        repf = rep
    for m in _iter(pp, s._ch):
        out.extend(s._ch[pos:m.i])
        out.extend(chars(repf(m)))
        pos = m.j
        n += 1
        if count and n >= count:
            break
    out.extend(s._ch[pos:])
    return mkstr(out)


def re_search(pat, s, flags=0):
    if type(s) is not SymStr:
        return re.search(pat, realize(s), flags)
    for m in _iter(_comp(pat, flags), s._ch):
        return m
    return None


def re_match(pat, s, flags=0):
    if type(s) is not SymStr:
        return re.match(pat, realize(s), flags)
    return _at(_comp(pat, flags), s._ch, 0)


def re_fullmatch(pat, s, flags=0):
    if type(s) is not SymStr:
        return re.fullmatch(pat, realize(s), flags)
    p, tree, fl = _comp(pat, flags)
    n = len(s._ch)
    r = _m(list(tree), 0, s._ch, 0, {}, lambda j, g: (j, g) if j == n else None, fl)
    return None if r is None else Match(s._ch, 0, r[0], r[1], p)


def re_findall(pat, s, flags=0):
    if type(s) is not SymStr:
        return re.findall(pat, realize(s), flags)
    pp = _comp(pat, flags)
    ms = list(_iter(pp, s._ch))
    if pp[0].groups == 0:
        return [m.group() for m in ms]
    if pp[0].groups == 1:
        return [m.group(1) or "" for m in ms]
    return [m.groups("") for m in ms]


def re_split(pat, s, maxsplit=0, flags=0):
    if type(s) is not SymStr:
        return re.split(pat, realize(s), maxsplit, flags)
    pp = _comp(pat, flags)
    out, pos, n = [], 0, 0
    for m in _iter(pp, s._ch):
        out.append(mkstr(s._ch[pos:m.i]))
        out.extend(m.groups())
        pos = m.j
        n += 1
        if maxsplit and n >= maxsplit:
            break
    out.append(mkstr(s._ch[pos:]))
    return out


def pattern_method(f, args, kw):
    """compiled-pattern methods on symbolic subjects"""
    s = getattr(f, "__self__", None)
    if not isinstance(s, re.Pattern):
        return None
    fn = {"sub": re_sub, "search": re_search, "match": re_match, "fullmatch": re_fullmatch,
          "findall": re_findall, "split": re_split}.get(f.__name__)
    if fn is None or not any(type(a) is SymStr for a in args):
        return None
    return (True, fn(s, *args, **kw))
