"""Backtracking matcher for python regular expressions over symbolic strings.

Works on the tree produced by the standard library's own regex parser, so the
pattern semantics come from the same source as `re`; character tests on symbolic
cells become path decisions.
"""
import re
from re import _parser, _constants as C
from . import core
from .core import MAXCODE, ALLMASK, WS, mask_of, Unsupported
from .symstr import (SymStr, SChar, NumTok, PadTok, NUMCHARS, SPACE, NeedText,
                     mk, cells_of, cell_in, cexpr, isstr)

DIG = mask_of("0123456789")
WORD = mask_of("abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789_")
NL = mask_of("\n")

_trees = {}


def tree(pattern, flags):
    k = (pattern, flags)
    t = _trees.get(k)
    if t is None:
        t = _trees[k] = _parser.parse(pattern, flags)
    return t


class Cls:
    """A character class: ASCII mask + predicate for other characters."""
    __slots__ = ("mask", "node", "pat")

    def __init__(self, mask, pat):
        self.mask = mask
        self.pat = pat

    def test(self, c):
        if type(c) is str and ord(c) >= MAXCODE:
            return bool(self.pat(c))
        return cell_in(c, self.mask)


def fold(mask):
    m = mask
    for i in range(26):
        if mask >> (65 + i) & 1:
            m |= 1 << (97 + i)
        if mask >> (97 + i) & 1:
            m |= 1 << (65 + i)
    return m


_cls = {}


def cls_of(op, av, flags):
    key = (str(op), str(av), flags & (re.I | re.S))
    c = _cls.get(key)
    if c is not None:
        return c
    neg = False
    if op is C.LITERAL:
        m = 1 << av if av < MAXCODE else 0
        other = lambda ch: ord(ch) == av
    elif op is C.NOT_LITERAL:
        m = 1 << av if av < MAXCODE else 0
        neg = True
        other = lambda ch: ord(ch) == av
    elif op is C.ANY:
        m = ALLMASK if flags & re.S else ALLMASK & ~NL
        other = lambda ch: True
    elif op is C.CATEGORY:
        m, other = category(av)
    elif op is C.IN:
        m = 0
        preds = []
        for o, a in av:
            if o is C.NEGATE:
                neg = True
            elif o is C.LITERAL:
                if a < MAXCODE:
                    m |= 1 << a
                preds.append(lambda ch, a=a: ord(ch) == a)
            elif o is C.RANGE:
                for i in range(a[0], min(a[1], MAXCODE - 1) + 1):
                    m |= 1 << i
                preds.append(lambda ch, a=a: a[0] <= ord(ch) <= a[1])
            elif o is C.CATEGORY:
                mm, p = category(a)
                m |= mm
                preds.append(p)
            else:
                raise Unsupported("regex class %s" % o)
        other = lambda ch: any(p(ch) for p in preds)
    else:
        raise Unsupported("regex op %s" % op)
    if flags & re.I:
        m = fold(m)
    if neg:
        m = ALLMASK & ~m
        o2 = other
        other = lambda ch: not o2(ch)
    c = Cls(m, other)
    _cls[key] = c
    return c


def category(a):
    if a is C.CATEGORY_DIGIT:
        return DIG, str.isdigit
    if a is C.CATEGORY_NOT_DIGIT:
        return ALLMASK & ~DIG, lambda c: not c.isdigit()
    if a is C.CATEGORY_SPACE:
        return WS, str.isspace
    if a is C.CATEGORY_NOT_SPACE:
        return ALLMASK & ~WS, lambda c: not c.isspace()
    if a is C.CATEGORY_WORD:
        return WORD, lambda c: c.isalnum() or c == "_"
    if a is C.CATEGORY_NOT_WORD:
        return ALLMASK & ~WORD, lambda c: not (c.isalnum() or c == "_")
    raise Unsupported("regex category %s" % a)


SINGLE = (C.LITERAL, C.NOT_LITERAL, C.ANY, C.IN)


class Matcher:
    def __init__(self, cells, flags):
        self.cells = cells
        self.n = len(cells)
        self.flags = flags

    def seq(self, nodes, k, i, g):
        """Match nodes[k:] at i with groups g; yield (end, groups)."""
        if k == len(nodes):
            yield i, g
            return
        op, av = nodes[k]
        if op in SINGLE:
            if i < self.n:
                c = self.cells[i]
                cl = cls_of(op, av, self.flags)
                if type(c) in (NumTok, PadTok):
                    m = NUMCHARS if type(c) is NumTok else SPACE
                    if cl.mask & m:
                        raise NeedText()
                elif cl.test(c):
                    yield from self.seq(nodes, k + 1, i + 1, g)
            return
        if op is C.AT:
            if self.at(av, i):
                yield from self.seq(nodes, k + 1, i, g)
            return
        if op is C.SUBPATTERN:
            gid, add, dele, sub = av
            if add or dele:
                raise Unsupported("inline regex flags")
            for e, g2 in self.seq(list(sub), 0, i, g):
                if gid is not None:
                    g2 = dict(g2)
                    g2[gid] = (i, e)
                yield from self.seq(nodes, k + 1, e, g2)
            return
        if op is C.BRANCH:
            for alt in av[1]:
                for e, g2 in self.seq(list(alt), 0, i, g):
                    yield from self.seq(nodes, k + 1, e, g2)
            return
        if op in (C.MAX_REPEAT, C.MIN_REPEAT, C.POSSESSIVE_REPEAT):
            lo, hi, sub = av
            sub = list(sub)
            if len(sub) == 1 and sub[0][0] in SINGLE:
                yield from self.rep1(nodes, k, i, g, lo, hi, sub[0], op)
            else:
                yield from self.rep(nodes, k, i, g, lo, hi, sub, op, 0)
            return
        if op is C.ASSERT or op is C.ASSERT_NOT:
            d, sub = av
            ok = False
            g2 = g
            if d < 0:
                w = sub.getwidth()[0]
                if i - w >= 0:
                    for e, gg in self.seq(list(sub), 0, i - w, g):
                        if e == i:
                            ok, g2 = True, gg
                            break
            else:
                for e, gg in self.seq(list(sub), 0, i, g):
                    ok, g2 = True, gg
                    break
            if ok == (op is C.ASSERT):
                yield from self.seq(nodes, k + 1, i, g2 if ok else g)
            return
        if op is C.GROUPREF:
            if av not in g:
                return
            a, b = g[av]
            ln = b - a
            if i + ln <= self.n:
                from .symstr import match_at
                if match_at(self.cells, i, self.cells[a:b]):
                    yield from self.seq(nodes, k + 1, i + ln, g)
            return
        raise Unsupported("regex op %s" % op)

    def rep1(self, nodes, k, i, g, lo, hi, node, op):
        cl = cls_of(node[0], node[1], self.flags)
        if op is C.MIN_REPEAT:
            cnt = 0
            j = i
            while True:
                if cnt >= lo:
                    yield from self.seq(nodes, k + 1, j, g)
                if (hi is not C.MAXREPEAT and cnt >= hi) or j >= self.n:
                    return
                c = self.cells[j]
                if type(c) in (NumTok, PadTok):
                    if cl.mask & NUMCHARS if type(c) is NumTok else cl.mask & SPACE:
                        # the whole token is swallowed; a lazy stop inside it
                        # is only possible where the continuation could match
                        # numeral characters
                        self.need_inner(nodes, k + 1, c)
                        if hi is not C.MAXREPEAT or cl.mask & NUMCHARS != NUMCHARS:
                            raise NeedText()
                        j += 1
                        cnt += 1
                        continue
                    return
                if not cl.test(c):
                    return
                j += 1
                cnt += 1
        j = i
        cnt = 0
        pos = [i]
        while j < self.n and (hi is C.MAXREPEAT or cnt < hi):
            c = self.cells[j]
            if type(c) is NumTok:
                if cl.mask & NUMCHARS == 0:
                    break
                if cl.mask & NUMCHARS != NUMCHARS or hi is not C.MAXREPEAT:
                    raise NeedText()
                self.need_inner(nodes, k + 1, c)
            elif type(c) is PadTok:
                if not cl.mask & SPACE:
                    break
                if hi is not C.MAXREPEAT:
                    raise NeedText()
            elif not cl.test(c):
                break
            j += 1
            cnt += 1
            pos.append(j)
        if any(type(c) is PadTok for c in self.cells[i:j]):
            if cnt - sum(1 for c in self.cells[i:j] if type(c) is PadTok) < lo:
                raise NeedText()
        for cnt in range(len(pos) - 1, -1, -1):
            if cnt < lo:
                return
            yield from self.seq(nodes, k + 1, pos[cnt], g)
            if op is C.POSSESSIVE_REPEAT:
                return

    def need_inner(self, nodes, k, tok):
        """Could the continuation start inside the token?"""
        j = k
        while j < len(nodes):
            op, av = nodes[j]
            if op in SINGLE:
                m = cls_of(op, av, self.flags).mask
                if m & (NUMCHARS if type(tok) is NumTok else SPACE):
                    raise NeedText()
                return
            if op in (C.MAX_REPEAT, C.MIN_REPEAT):
                lo, hi, sub = av
                sub = list(sub)
                if len(sub) == 1 and sub[0][0] in SINGLE:
                    # a following greedy class that could share the token only
                    # changes the group split, the first split is greedy: fine
                    if lo == 0:
                        j += 1
                        continue
                    m = cls_of(sub[0][0], sub[0][1], self.flags).mask
                    if m & NUMCHARS:
                        raise NeedText()
                    return
                return
            return

    def rep(self, nodes, k, i, g, lo, hi, sub, op, cnt):
        more = hi is C.MAXREPEAT or cnt < hi
        if op is C.MIN_REPEAT and cnt >= lo:
            yield from self.seq(nodes, k + 1, i, g)
        if more:
            for e, g2 in self.seq(sub, 0, i, g):
                if e == i and cnt >= lo:
                    continue
                yield from self.rep(nodes, k, e, g2, lo, hi, sub, op, cnt + 1)
        if op is not C.MIN_REPEAT and cnt >= lo:
            yield from self.seq(nodes, k + 1, i, g)

    def at(self, av, i):
        cells = self.cells
        if av in (C.AT_BEGINNING_STRING,):
            return i == 0
        if av is C.AT_BEGINNING:
            return i == 0 or (self.flags & re.M and cell_in(cells[i - 1], NL))
        if av is C.AT_END_STRING:
            return i == self.n
        if av is C.AT_END:
            if i == self.n:
                return True
            if i == self.n - 1 and cell_in(cells[i], NL):
                return True
            return bool(self.flags & re.M and cell_in(cells[i], NL))
        if av in (C.AT_BOUNDARY, C.AT_NON_BOUNDARY):
            a = i > 0 and wordish(cells[i - 1], False)
            b = i < self.n and wordish(cells[i], True)
            return (a != b) == (av is C.AT_BOUNDARY)
        raise Unsupported("regex anchor %s" % av)


def wordish(c, first):
    if type(c) in (NumTok,):
        raise NeedText()
    return cell_in(c, WORD)


class SymMatch:
    def __init__(self, string, cells, pat, tr, start, end, groups):
        self.string = string
        self.cells = cells
        self.re = pat
        self.tr = tr
        self._s, self._e = start, end
        self._g = groups
        ids = [k for k in groups]
        self.lastindex = max(ids) if ids else None
        self.pos = 0

    def _id(self, k):
        if isinstance(k, str):
            d = self.tr.state.groupdict
            if k not in d:
                raise IndexError("no such group")
            return d[k]
        if k >= self.tr.state.groups:
            raise IndexError("no such group")
        return k

    def span(self, k=0):
        k = self._id(k)
        if k == 0:
            return (self._s, self._e)
        return self._g.get(k, (-1, -1))

    def start(self, k=0):
        return self.span(k)[0]

    def end(self, k=0):
        return self.span(k)[1]

    def _one(self, k, default=None):
        a, b = self.span(k)
        if a < 0:
            return default
        return mk(self.cells[a:b])

    def group(self, *ks):
        if not ks:
            return self._one(0)
        if len(ks) == 1:
            return self._one(ks[0])
        return tuple(self._one(k) for k in ks)

    __getitem__ = _one

    def groups(self, default=None):
        return tuple(self._one(i, default)
                     for i in range(1, self.tr.state.groups))

    def groupdict(self, default=None):
        return {k: self._one(v, default)
                for k, v in self.tr.state.groupdict.items()}

    def expand(self, t):
        raise Unsupported("Match.expand")

    def __bool__(self):
        return True


def _with_text(f):
    def g(pat, s, *a, **k):
        try:
            return f(pat, s, *a, **k)
        except NeedText:
            s2 = s.realize_tokens("regex on a numeral")
            if isinstance(s2, str):
                return getattr(pat, f.__name__)(s2, *a, **k)
            return f(pat, s2, *a, **k)
    g.__name__ = f.__name__
    return g


def _try(pat, tr, s, cells, i, full=False):
    m = Matcher(cells, pat.flags)
    for e, g in m.seq(list(tr), 0, i, {}):
        if full and e != len(cells):
            continue
        return SymMatch(s, cells, pat, tr, i, e, g)
    return None


@_with_text
def match(pat, s, *a):
    if a:
        raise Unsupported("match(pos)")
    return _try(pat, tree(pat.pattern, pat.flags), s, cells_of(s), 0)


@_with_text
def fullmatch(pat, s, *a):
    return _try(pat, tree(pat.pattern, pat.flags), s, cells_of(s), 0, True)


@_with_text
def search(pat, s, *a):
    cells = cells_of(s)
    tr = tree(pat.pattern, pat.flags)
    for i in range(len(cells) + 1):
        r = _try(pat, tr, s, cells, i)
        if r is not None:
            return r
    return None


def _iter(pat, s):
    cells = cells_of(s)
    tr = tree(pat.pattern, pat.flags)
    i = 0
    last = -1
    while i <= len(cells):
        r = _try(pat, tr, s, cells, i)
        if r is None:
            i += 1
            continue
        if r._e == r._s and r._s == last:
            i += 1
            continue
        yield r
        last = r._e
        i = r._e if r._e > r._s else r._e
        if r._e == r._s:
            i = r._e + 1


@_with_text
def finditer(pat, s, *a):
    return iter(list(_iter(pat, s)))


@_with_text
def findall(pat, s, *a):
    out = []
    for m in _iter(pat, s):
        n = m.tr.state.groups - 1
        if n == 0:
            out.append(m.group(0))
        elif n == 1:
            out.append(m._one(1, ""))
        else:
            out.append(m.groups(""))
    return out


@_with_text
def split(pat, s, maxsplit=0):
    cells = cells_of(s)
    out = []
    pos = 0
    n = 0
    for m in _iter(pat, s):
        if maxsplit and n >= maxsplit:
            break
        out.append(mk(cells[pos:m._s]))
        out.extend(m.groups())
        pos = m._e
        n += 1
    out.append(mk(cells[pos:]))
    return out


@_with_text
def subn(pat, repl, s, count=0):
    raise Unsupported("subn")


def sub(pat, repl, s, count=0):
    try:
        return _sub(pat, repl, s, count)
    except NeedText:
        s2 = s.realize_tokens("regex sub on a numeral")
        if isinstance(s2, str) and not isinstance(repl, SymStr):
            return pat.sub(repl, s2, count)
        return _sub(pat, repl, s2, count)


def _sub(pat, repl, s, count):
    cells = cells_of(s)
    out = []
    pos = 0
    n = 0
    if isinstance(repl, str) and "\\" in repl:
        parts = _parser.parse_template(repl, pat)
    else:
        parts = None
    for m in _iter(pat, s):
        if count and n >= count:
            break
        out.extend(cells[pos:m._s])
        if parts is not None:
            for p in parts:
                if isinstance(p, int):
                    out.extend(cells_of(m._one(p, "")))
                else:
                    out.extend(cells_of(p))
        elif isstr(repl):
            out.extend(cells_of(repl))
        else:
            out.extend(cells_of(repl(m)))
        pos = m._e
        n += 1
    out.extend(cells[pos:])
    return mk(out)


def call(name, pat, args, kwargs):
    f = {"match": match, "fullmatch": fullmatch, "search": search,
         "finditer": finditer, "findall": findall, "split": split}.get(name)
    if name == "sub":
        return sub(pat, *args, **kwargs)
    if f is None:
        raise Unsupported("regex method %s" % name)
    return f(pat, *args, **kwargs)
