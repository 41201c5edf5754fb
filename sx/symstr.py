"""Symbolic strings: tuples of cells.

cell =  a 1-character native str            (concrete character)
     |  SChar                               (symbolic character, ASCII)
     |  NumTok                              (opaque text of a formatted number)
     |  PadTok                              (zero or more spaces, opaque count)
"""
import math
import re

import z3
from . import core
from .core import (Sym, SymBool, SymInt, SymFloat, mkbool, mkint, mask_of, WS,
                   MAXCODE, ALLMASK, Unsupported)

NUMCHARS = mask_of("0123456789+-.einfa")   # every char a numeral can contain
NUMFIRST = mask_of("0123456789-ni")
NUMSTART = mask_of("0123456789-")         # of a finite numeral
NUMLAST = mask_of("0123456789nf.")
SPACE = mask_of(" ")
UPPER = mask_of("ABCDEFGHIJKLMNOPQRSTUVWXYZ")
LOWER = mask_of("abcdefghijklmnopqrstuvwxyz")
DIGIT = mask_of("0123456789")
LINEBREAK = mask_of("\n\r\x0b\x0c\x1c\x1d\x1e")


class SChar:
    __slots__ = ("name", "expr")

    def __init__(self, name, expr):
        self.name = name
        self.expr = expr

    def dom(self):
        return core.CTX.dom[self.name]


class MapChar:
    """lower()/upper() image of a symbolic char (case folding of letters)."""
    __slots__ = ("base", "expr", "name", "up")


class NumTok:
    """Text produced by formatting number `expr` (z3 Real) with `spec`.
    kind: 'i' integer-valued text, 'f' float-typed."""
    __slots__ = ("spec", "kind", "e", "id", "val")

    def __init__(self, spec, kind, e, id_, val):
        self.spec = spec      # canonical printf spec, '%s' for str()/repr()
        self.kind = kind      # type of the python value: 'i' or 'f'
        self.e = e            # z3 Real value
        self.id = id_         # z3 Int: identity of the text
        self.val = val        # what float()/int() of the text gives (z3 Real)

    def __deepcopy__(self, memo):
        return self


class PadTok:
    __slots__ = ("n",)

    def __init__(self, n):
        self.n = n            # z3 Int >= 0


def cells_of(x):
    if isinstance(x, SymStr):
        return x.cells
    if isinstance(x, str):
        return tuple(x)
    raise TypeError("can only concatenate str, not %r" % type(x).__name__)


def mk(cells):
    """Build a str (if fully concrete) or a SymStr."""
    cells = tuple(cells)
    for c in cells:
        if type(c) is not str:
            return SymStr(cells)
    return "".join(cells)


def isstr(x):
    return isinstance(x, (str, SymStr))


def cell_in(c, mask):
    """Is this single cell's character in the set? (bool; may fork)"""
    if type(c) is str:
        o = ord(c)
        if o >= MAXCODE:
            return bool(c.isspace() and mask & WS == WS)
        return bool(mask >> o & 1)
    if type(c) is SChar:
        return core.CTX.char_in(c, mask)
    if type(c) is PadTok:
        if mask & SPACE:
            return True
        return False
    if type(c) is NumTok:
        if mask & NUMCHARS == 0:
            return False
        if mask & NUMCHARS == NUMCHARS:
            return True
        raise NeedText()
    raise AssertionError(c)


class NeedText(Exception):
    """An operation needs the concrete text of a numeral token."""


def needs_text(f):
    """Retry an operation with numeral tokens pinned to concrete text."""
    def g(self, *a, **k):
        try:
            return f(self, *a, **k)
        except NeedText:
            s = self.realize_tokens(f.__name__)
            if isinstance(s, str):
                a = tuple(x.realize_tokens(f.__name__) if isinstance(x, SymStr)
                          else x for x in a)
                if any(isinstance(x, SymStr) for x in a):
                    return f(SymStr(tuple(s)), *a, **k)
                return getattr(s, f.__name__)(*a, **k)
            return f(s, *a, **k)
    g.__name__ = f.__name__
    return g


def chars_mask(chars):
    if chars is None:
        return WS
    if isinstance(chars, SymStr):
        chars = chars.realize("strip chars")
    return mask_of(chars)


class SymStr(Sym):
    __slots__ = ("cells",)
    pytype = str

    def __init__(self, cells):
        self.cells = tuple(cells)

    # -- realisation ---------------------------------------------------------
    def realize_tokens(self, why):
        out = []
        for c in self.cells:
            if type(c) is NumTok:
                out.extend(tok_text(c, why))
            elif type(c) is PadTok:
                n = core.CTX.pin(c.n, "padding width (%s)" % why)
                out.extend(" " * n)
            else:
                out.append(c)
        return mk(out)

    def realize(self, why):
        s = self.realize_tokens(why)
        if isinstance(s, str):
            return s
        out = []
        for c in s.cells:
            if type(c) is SChar:
                v = core.CTX.pin(c.expr, "character (%s)" % why)
                core.CTX.dom[c.name] = 1 << v
                out.append(chr(v))
            else:
                out.append(c)
        return "".join(out)

    def __str__(self):
        return self.realize("native str()")

    def __repr__(self):
        return "SymStr(%s)" % self.show()

    def __format__(self, spec):
        return format(self.realize("native format()"), spec)

    def show(self):
        o = []
        for c in self.cells:
            if type(c) is str:
                o.append(c)
            elif type(c) is SChar:
                o.append("<%s>" % c.name)
            elif type(c) is NumTok:
                o.append("<%s:%s>" % (c.spec, str(c.e)[:30]))
            else:
                o.append("<pad>")
        return "".join(o)

    # -- basics ----------------------------------------------------------------
    def has_tok(self):
        return any(type(c) in (NumTok, PadTok) for c in self.cells)

    def symlen(self):
        n = 0
        extra = []
        for c in self.cells:
            if type(c) is NumTok:
                from .fmt import len_facts
                extra.append(len_facts(c))
            elif type(c) is PadTok:
                extra.append(c.n)
            else:
                n += 1
        if not extra:
            return n
        return mkint(z3.Sum([z3.IntVal(n)] + extra))

    def __len__(self):
        n = self.symlen()
        if isinstance(n, int):
            return n
        return n.__index__()

    def __bool__(self):
        for c in self.cells:
            if type(c) is not PadTok:
                return True
        n = self.symlen()
        return bool(n != 0) if not isinstance(n, int) else n != 0

    def __hash__(self):
        # a dictionary with concrete keys finds this string if it equals one:
        # the harness names the concrete keys in question
        for c in core.CTX.hash_names:
            if self == c:
                return hash(c)
        return 0x5757

    def __iter__(self):
        for i, c in enumerate(self.cells):
            if type(c) in (NumTok, PadTok):
                break
            yield mk((c,))
        else:
            return
        s = self.realize_tokens("iteration over characters")
        for c in cells_of(s)[i:]:
            yield mk((c,))

    def __getitem__(self, k):
        if isinstance(k, slice):
            if k.step not in (None, 1):
                if k.start is None and k.stop is None and k.step == -1 and \
                        not self.has_tok():
                    return mk(self.cells[::-1])
                s = self.realize_tokens("slice step")
                return mk(cells_of(s)[k])
            st = None if k.start is None else k.start.__index__()
            sp = None if k.stop is None else k.stop.__index__()
            cells = self.cells
            if self.has_tok() and not (st in (None, 0) and sp is None):
                # allowed if the cut positions lie in the token-free margins
                pre = 0
                while pre < len(cells) and type(cells[pre]) in (str, SChar):
                    pre += 1
                suf = 0
                while suf < len(cells) and type(cells[-1 - suf]) in (str, SChar):
                    suf += 1

                def ok(i):
                    return i is None or (0 <= i <= pre) or (i < 0 and -i <= suf)
                if ok(st) and ok(sp):
                    return mk(cells[slice(st, sp)])
                s = self.realize_tokens("slice of a numeral")
                return mk(cells_of(s)[slice(st, sp)])
            return mk(cells[slice(st, sp)])
        i = k.__index__()
        cells = self.cells
        if self.has_tok():
            n = len(cells)
            rng = cells[:i + 1] if i >= 0 else cells[i:]
            if any(type(c) in (NumTok, PadTok) for c in rng):
                s = self.realize_tokens("index into a numeral")
                return mk((cells_of(s)[i],))
        if i >= len(cells) or i < -len(cells):
            raise IndexError("string index out of range")
        return mk((cells[i],))

    def __add__(self, o):
        if not isstr(o):
            return NotImplemented
        return mk(self.cells + cells_of(o))

    def __radd__(self, o):
        if not isstr(o):
            return NotImplemented
        return mk(cells_of(o) + self.cells)

    def __mul__(self, n):
        return mk(self.cells * n.__index__())
    __rmul__ = __mul__

    def __mod__(self, args):
        from . import fmt
        return fmt.mod(self, args)

    def __eq__(self, o):
        if not isstr(o):
            return NotImplemented
        return str_eq(self, o)

    def __ne__(self, o):
        if not isstr(o):
            return NotImplemented
        r = str_eq(self, o)
        return (not r) if isinstance(r, bool) else mkbool(z3.Not(r.e))

    def _order(self, o):
        """-1, 0, 1 by forking."""
        a, b = cells_of(self), cells_of(o)
        for x, y in zip(a, b):
            if type(x) in (NumTok, PadTok) or type(y) in (NumTok, PadTok):
                a = self.realize("string ordering")
                b = o if isinstance(o, str) else o.realize("string ordering")
                return (a > b) - (a < b)
            ex, ey = cexpr(x), cexpr(y)
            if core.CTX.fork(ex == ey):
                continue
            return -1 if core.CTX.fork(ex < ey) else 1
        return (len(a) > len(b)) - (len(a) < len(b))

    def __lt__(self, o):
        return self._order(o) < 0 if isstr(o) else NotImplemented

    def __le__(self, o):
        return self._order(o) <= 0 if isstr(o) else NotImplemented

    def __gt__(self, o):
        return self._order(o) > 0 if isstr(o) else NotImplemented

    def __ge__(self, o):
        return self._order(o) >= 0 if isstr(o) else NotImplemented

    def __contains__(self, sub):
        return self.find(sub) != -1

    # -- str methods -------------------------------------------------------------
    @needs_text
    def lstrip(self, chars=None):
        m = chars_mask(chars)
        cells = self.cells
        i = 0
        while i < len(cells) and strip_in(cells[i], m, NUMFIRST):
            i += 1
        return mk(cells[i:])

    @needs_text
    def rstrip(self, chars=None):
        m = chars_mask(chars)
        cells = self.cells
        i = len(cells)
        while i > 0 and strip_in(cells[i - 1], m, NUMLAST):
            i -= 1
        return mk(cells[:i])

    @needs_text
    def strip(self, chars=None):
        r = self.lstrip(chars)
        return r.rstrip(chars)

    @needs_text
    def split(self, sep=None, maxsplit=-1):
        if maxsplit is None:
            maxsplit = -1
        maxsplit = maxsplit.__index__()
        cells = self.cells
        if sep is None:
            out = []
            cur = None
            i = 0
            n = len(cells)
            while i < n:
                c = cells[i]
                if cell_in(c, WS):
                    if type(c) is PadTok and cur is not None and not (
                            i + 1 < n and type(cells[i + 1]) is str
                            and cells[i + 1] in " \t\n"):
                        # may be empty: does it separate?
                        if core.CTX.fork(c.n == 0):
                            i += 1
                            continue
                    if cur is not None:
                        out.append(mk(cur))
                        cur = None
                else:
                    if cur is None:
                        if maxsplit >= 0 and len(out) >= maxsplit:
                            rest = mk(cells[i:])
                            out.append(rest.rstrip())
                            return out
                        cur = []
                    cur.append(c)
                i += 1
            if cur is not None:
                out.append(mk(cur))
            return out
        out = []
        sc = cells_of(sep)
        if not sc:
            raise ValueError("empty separator")
        start = 0
        i = 0
        while i <= len(cells) - len(sc):
            if maxsplit >= 0 and len(out) >= maxsplit:
                break
            if match_at(cells, i, sc):
                out.append(mk(cells[start:i]))
                i += len(sc)
                start = i
            else:
                i += 1
        out.append(mk(cells[start:]))
        return out

    @needs_text
    def rsplit(self, sep=None, maxsplit=-1):
        if maxsplit is None or maxsplit < 0:
            return self.split(sep)
        if sep is None:
            parts = self.split()
            if len(parts) <= maxsplit + 1:
                return parts
            raise NeedText()
        cells = self.cells
        sc = cells_of(sep)
        out = []
        end = len(cells)
        i = end - len(sc)
        while i >= 0 and len(out) < maxsplit:
            if match_at(cells, i, sc):
                out.insert(0, mk(cells[i + len(sc):end]))
                end = i
                i -= len(sc)
            else:
                i -= 1
        out.insert(0, mk(cells[:end]))
        return out

    def splitlines(self, keepends=False):
        out = []
        cur = []
        cells = self.cells
        i = 0
        while i < len(cells):
            c = cells[i]
            if type(c) is str and ord(c) >= MAXCODE:
                br = c in "\x85\u2028\u2029"
            else:
                br = cell_in(c, LINEBREAK)
            if br:
                end = [c]
                if type(c) is not str:
                    if cell_in(c, mask_of("\r")):
                        c = "\r"
                if c == "\r" and i + 1 < len(cells) and \
                        cell_in(cells[i + 1], mask_of("\n")):
                    end.append(cells[i + 1])
                    i += 1
                out.append(mk(cur + end) if keepends else mk(cur))
                cur = []
            else:
                cur.append(c)
            i += 1
        if cur:
            out.append(mk(cur))
        return out

    def join(self, items):
        return str_join(self, items)

    @needs_text
    def find(self, sub, start=0, end=None):
        cells = self.cells
        sc = cells_of(sub)
        if self.has_tok() and not tokfree(sc) and \
                any(type(c) is str and NUMCHARS >> ord(c) & 1
                    for c in sc if ord(c) < MAXCODE):
            raise NeedText()
        start = start.__index__()
        if start < 0:
            start = max(0, len(cells) + start)
        stop = len(cells) if end is None else end.__index__()
        if stop < 0:
            stop += len(cells)
        stop = min(stop, len(cells))
        for i in range(start, stop - len(sc) + 1):
            if match_at(cells, i, sc):
                if any(type(c) in (NumTok, PadTok) for c in cells[:i]):
                    return mk(cells[:i]).symlen()
                return i
        return -1

    @needs_text
    def rfind(self, sub, start=0, end=None):
        cells = self.cells
        sc = cells_of(sub)
        if self.has_tok():
            raise NeedText()
        stop = len(cells) if end is None else end
        if stop < 0:
            stop += len(cells)
        for i in range(min(stop, len(cells)) - len(sc), start - 1, -1):
            if match_at(cells, i, sc):
                return i
        return -1

    def index(self, sub, *a):
        r = self.find(sub, *a)
        if r == -1:
            raise ValueError("substring not found")
        return r

    def rindex(self, sub, *a):
        r = self.rfind(sub, *a)
        if r == -1:
            raise ValueError("substring not found")
        return r

    @needs_text
    def count(self, sub, *a):
        if a:
            return self[slice(*a)].count(sub)
        cells = self.cells
        sc = cells_of(sub)
        if not sc:
            return len(self) + 1
        if self.has_tok() and not tokfree(sc) and any(type(c) is str and ord(c) < MAXCODE and
                                  NUMCHARS >> ord(c) & 1 for c in sc):
            raise NeedText()
        i = n = 0
        while i <= len(cells) - len(sc):
            if match_at(cells, i, sc):
                n += 1
                i += len(sc)
            else:
                i += 1
        return n

    @needs_text
    def startswith(self, pre, *a):
        if a:
            return self[slice(*a)].startswith(pre)
        if isinstance(pre, tuple):
            return any(self.startswith(p) for p in pre)
        sc = cells_of(pre)
        return match_at(self.cells, 0, sc)

    @needs_text
    def endswith(self, suf, *a):
        if isinstance(suf, tuple):
            return any(self.endswith(p) for p in suf)
        sc = cells_of(suf)
        if not sc:
            return True
        cells = self.cells
        k = len(sc)
        tail = cells[-k:]
        if any(type(c) is NumTok for c in tail):
            # is the mismatch decidable?
            for a, b in zip(reversed(cells), reversed(sc)):
                if type(a) is NumTok and type(b) is not NumTok:
                    if type(b) is str and not (NUMLAST >> ord(b) & 1):
                        return False
                    raise NeedText()
                if not match_at((a,), 0, (b,)):
                    return False
        if len(cells) < k:
            return False
        return match_at(cells, len(cells) - k, sc)

    @needs_text
    def replace(self, old, new, count=-1):
        cells = self.cells
        oc, nc = cells_of(old), cells_of(new)
        if not oc:
            raise NeedText()
        if self.has_tok() and not tokfree(oc) and any(type(c) is str and ord(c) < MAXCODE and
                                  NUMCHARS >> ord(c) & 1 for c in oc):
            raise NeedText()
        out = []
        i = n = 0
        while i < len(cells):
            if (count < 0 or n < count) and i <= len(cells) - len(oc) and \
                    match_at(cells, i, oc):
                out.extend(nc)
                i += len(oc)
                n += 1
            else:
                out.append(cells[i])
                i += 1
        return mk(out)

    def _case(self, frm, delta, name):
        out = []
        for c in self.cells:
            if type(c) is str:
                out.extend(getattr(c, name)())
            elif type(c) is SChar:
                if core.CTX.char_in(c, frm):
                    out.append(shift_char(c, delta))
                else:
                    out.append(c)
            elif type(c) is NumTok:
                if name == "upper":
                    s = SymStr((c,)).realize_tokens("upper() of a numeral")
                    out.extend(s.upper())
                else:
                    out.append(c)
            else:
                out.append(c)
        return mk(out)

    def lower(self):
        return self._case(UPPER, 32, "lower")

    casefold = lower

    def upper(self):
        return self._case(LOWER, -32, "upper")

    def capitalize(self):
        return mk(cells_of(self[:1].upper()) + cells_of(self[1:].lower()))

    def title(self):
        return self.realize("title()").title()

    def swapcase(self):
        return self.realize("swapcase()").swapcase()

    def _all(self, mask):
        if not self.cells:
            return False
        for c in self.cells:
            if type(c) is PadTok:
                continue
            if not cell_in(c, mask):
                return False
        return True

    @needs_text
    def isdigit(self):
        return self._all(DIGIT)

    isdecimal = isnumeric = isdigit

    @needs_text
    def isalpha(self):
        return self._all(UPPER | LOWER)

    @needs_text
    def isalnum(self):
        return self._all(UPPER | LOWER | DIGIT)

    @needs_text
    def isspace(self):
        return self._all(WS)

    def isascii(self):
        return True

    @needs_text
    def isupper(self):
        if any(cell_in(c, LOWER) for c in self.cells):
            return False
        return any(cell_in(c, UPPER) for c in self.cells)

    @needs_text
    def islower(self):
        if any(cell_in(c, UPPER) for c in self.cells):
            return False
        return any(cell_in(c, LOWER) for c in self.cells)

    def isidentifier(self):
        return self.realize("isidentifier").isidentifier()

    def partition(self, sep):
        i = self.find(sep)
        if i == -1:
            return (self, "", "")
        sc = cells_of(sep)
        for j in range(len(self.cells)):
            if match_at(self.cells, j, sc):
                return (mk(self.cells[:j]), sep, mk(self.cells[j + len(sc):]))
        raise Unsupported("partition")

    def rpartition(self, sep):
        p = self.rsplit(sep, 1)
        if len(p) == 1:
            return ("", "", self)
        return (p[0], sep, p[1])

    def _pad(self, width, fill):
        w = width.__index__()
        n = self.symlen()
        if isinstance(n, int):
            return fill * max(0, w - n)
        if n >= w:
            return ""
        return fill * int(w - n)

    def ljust(self, w, fill=" "):
        return self + self._pad(w, fill)

    def rjust(self, w, fill=" "):
        return self._pad(w, fill) + self

    def center(self, w, fill=" "):
        return self.realize("center").center(w, fill)

    def zfill(self, w):
        return self.realize("zfill").zfill(w)

    def expandtabs(self, n=8):
        return self.realize("expandtabs").expandtabs(n)

    def removeprefix(self, p):
        return self[len(p):] if self.startswith(p) else self

    def removesuffix(self, p):
        if not cells_of(p) or not self.endswith(p):
            return self
        if self.has_tok():
            # endswith matched cell by cell
            return mk(self.cells[:-len(cells_of(p))])
        return self[:-len(p)]

    def translate(self, table):
        out = []
        for c in self.cells:
            if type(c) is str:
                out.extend(c.translate(table))
            elif type(c) is SChar:
                keys = [k for k in table if isinstance(k, int)
                        and k < MAXCODE] if isinstance(table, dict) else None
                if keys is None:
                    return self.realize("translate").translate(table)
                done = False
                for k in keys:
                    if core.CTX.char_in(c, 1 << k):
                        v = table[k]
                        if v is not None:
                            out.extend(chr(v) if isinstance(v, int) else v)
                        done = True
                        break
                if not done:
                    out.append(c)
            else:
                out.append(c)
        return mk(out)

    def encode(self, *a, **k):
        return self.realize("encode").encode(*a, **k)

    def format(self, *a, **k):
        return self.realize("format").format(*a, **k)


def strip_in(c, mask, numedge):
    if type(c) is NumTok:
        if mask & numedge == 0:
            return False
        raise NeedText()
    return cell_in(c, mask)


def cexpr(c):
    if type(c) is str:
        return z3.IntVal(ord(c))
    return c.expr


def shift_char(c, delta):
    """A derived symbolic char c+delta (used after a case fork)."""
    name = "%s%+d" % (c.name, delta)
    ctx = core.CTX
    d = ctx.dom[c.name]
    nd = d << delta if delta > 0 else d >> -delta
    ctx.dom[name] = nd & ALLMASK
    return SChar(name, z3.simplify(c.expr + delta))


def tokfree(sc):
    """No occurrence of the text sc can overlap a numeral: numerals begin with
    a digit or one of "+-.", end with a digit or ".", and within them only "e"
    stands between such characters."""
    return all(type(c) is str and c not in "0123456789+-." for c in sc) and \
        sc and tuple(sc) != ("e",)


def match_at(cells, i, sc):
    """Does sc occur at position i (forks on symbolic characters)?"""
    if i + len(sc) > len(cells):
        return False
    for k, want in enumerate(sc):
        c = cells[i + k]
        if type(want) is str and type(c) is str:
            if c != want:
                return False
        elif type(want) is str and type(c) is SChar:
            if ord(want) >= MAXCODE or not core.CTX.char_in(c, 1 << ord(want)):
                return False
        elif type(c) is NumTok or type(want) is NumTok:
            if type(c) is NumTok and type(want) is NumTok:
                if not core.CTX.fork(c.id == want.id):
                    return False
                continue
            o = want if type(c) is NumTok else c
            if type(o) is str and not (ord(o) < MAXCODE and NUMCHARS >> ord(o) & 1):
                return False
            if type(c) is NumTok and tokfree(sc):
                return False
            raise NeedText()
        elif type(c) is PadTok or type(want) is PadTok:
            if c is want:
                continue
            if type(c) is PadTok and type(want) is PadTok:
                if not core.CTX.fork(c.n == want.n):
                    return False
                continue
            if k == 0 and type(want) is str and want != " ":
                # padding holds blanks only; a match past an empty pad is
                # found at the next position
                return False
            raise NeedText()
        else:
            if not core.CTX.fork(cexpr(c) == cexpr(want)):
                return False
    return True


def str_eq(a, b):
    """Equality as SymBool/bool (no forking when alignable)."""
    x, y = cells_of(a), cells_of(b)
    toks = any(type(c) in (NumTok, PadTok) for c in x) or \
        any(type(c) in (NumTok, PadTok) for c in y)
    if not toks:
        if len(x) != len(y):
            return False
        conj = []
        for c, d in zip(x, y):
            if type(c) is str and type(d) is str:
                if c != d:
                    return False
            else:
                if type(c) is str and ord(c) >= MAXCODE or \
                        type(d) is str and ord(d) >= MAXCODE:
                    return False
                if c is d:
                    continue
                dc = 1 << ord(c) if type(c) is str else core.CTX.dom[c.name]
                dd = 1 << ord(d) if type(d) is str else core.CTX.dom[d.name]
                if not dc & dd:
                    return False
                conj.append(cexpr(c) == cexpr(d))
        if not conj:
            return True
        return mkbool(z3.And(conj))
    if not x or not y:
        z = x or y
        if any(type(c) is not PadTok for c in z):
            return False
        return mkbool(z3.And([c.n == 0 for c in z]))
    for p, q in ((x, y), (y, x)):
        # a definite non-numeral character that the other side cannot match
        for c in set(c for c in p if type(c) is str and c != " " and
                     (ord(c) >= MAXCODE or not NUMCHARS >> ord(c) & 1)):
            n = sum(1 for k in p if k == c and type(k) is str)
            m = sum(1 for k in q if (type(k) is str and k == c) or
                    (type(k) is SChar and ord(c) < MAXCODE and k.dom() >> ord(c) & 1))
            if n > m:
                return False
    if not aligned(x, y):
        return False
    gx, gy = group(x), group(y)
    conj = []
    if len(gx) != len(gy):
        if all(type(c) in (str, NumTok) for c in x + y):
            # no symbolic characters: maximal numeral runs are comparable
            return False
        raise Unsupported("comparison of strings with unaligned numerals")
    for p, q in zip(gx, gy):
        if p[0] == "n" and q[0] == "n":
            e = p[1] == q[1]
        elif p[0] == "p" and q[0] == "p":
            e = p[1] == q[1]
        elif p[0] == "c" and q[0] == "c":
            if type(p[1]) is str and type(q[1]) is str:
                if p[1] != q[1]:
                    return False
                continue
            e = cexpr(p[1]) == cexpr(q[1])
        elif "p" in (p[0], q[0]):
            raise Unsupported("comparison of padded text")
        else:
            t = p if p[0] == "c" else q
            if type(t[1]) is str and not (ord(t[1]) < MAXCODE and
                                          NUMCHARS >> ord(t[1]) & 1):
                return False
            if type(t[1]) is SChar and not t[1].dom() & NUMCHARS:
                return False
            raise Unsupported("comparison of a numeral with a symbolic char")
        conj.append(e)
    return mkbool(z3.And(conj)) if conj else True


def aligned(x, y):
    """False if x and y differ where they surely have the same position."""
    i = 0
    for i, (c, d) in enumerate(zip(x, y)):
        if type(c) is PadTok or type(d) is PadTok:
            return True
        if type(c) is NumTok and type(d) is NumTok:
            e, f = x[i + 1:i + 2], y[i + 1:i + 2]
            if not (e or f):
                return True
            for k in e + f:
                if not (type(k) is str and (ord(k) >= MAXCODE or not NUMCHARS >> ord(k) & 1)):
                    return True
            if len(e) != len(f) or e[0] != f[0]:
                return False            # the numerals end here
        elif type(c) is NumTok or type(d) is NumTok:
            k = d if type(c) is NumTok else c
            dom = k.dom() if type(k) is SChar else (1 << ord(k) if ord(k) < MAXCODE else 0)
            return bool(dom & NUMSTART)
    n = min(len(x), len(y))
    rest = x[n:] + y[n:]
    return not rest or all(type(c) is PadTok for c in rest)


def group(cells):
    """Group cells: maximal runs of concrete numeral characters that could be a
    numeral become ('n', id) if the other side has tokens."""
    out = []
    i = 0
    n = len(cells)
    while i < n:
        c = cells[i]
        if type(c) is NumTok:
            # a token directly adjacent to numeral characters is ambiguous
            out.append(("n", c.id))
            i += 1
        elif type(c) is PadTok:
            out.append(("p", c.n))
            i += 1
        elif type(c) is str and c in "0123456789+-.":
            j = i
            while j < n and type(cells[j]) is str and \
                    cells[j] in "0123456789+-.einfa":
                j += 1
            text = "".join(cells[i:j])
            out.append(("n", core.CTX.text_id(text)))
            i = j
        else:
            out.append(("c", c))
            i += 1
    return out


def str_join(sep, items):
    items = list(items)
    out = []
    sc = cells_of(sep)
    for i, it in enumerate(items):
        if not isstr(it):
            raise TypeError("sequence item %d: expected str instance, %s found"
                            % (i, getattr(it, "pytype", type(it)).__name__))
        if i:
            out.extend(sc)
        out.extend(cells_of(it))
    return mk(out)


def tok_text(tok, why):
    """Text of a numeral: digits as symbolic characters if their number is
    fixed, else that of one model value (pinned)."""
    m = FIXED.match(tok.spec)
    if m and z3.is_to_real(tok.e):
        n = int(m.group(1))
        v = tok.e.arg(0)
        if core.CTX.fork(z3.And(v >= 0, v < 10 ** n)):
            out = []
            for k in range(n - 1, -1, -1):
                i = core.CTX.counters["digit"] = core.CTX.counters.get("digit", 0) + 1
                d = z3.Int("digit!%d" % i)
                core.CTX.dom[d.decl().name()] = DIGIT
                core.CTX.add(d == 48 + (v / 10 ** k) % 10)
                out.append(SChar(d.decl().name(), d))
            return out
    v = core.CTX.pin(tok.e, "numeral text (%s)" % why)
    if tok.kind == "i":
        text = tok.spec % int(v)
    else:
        text = tok.spec % core.frac_to_float(v)
    core.CTX.add(tok.id == core.CTX.text_id(text))
    return text


FIXED = re.compile(r"%[.0](\d)d$")


# ---------------------------------------------------------------------------
# numeric parsing
def parse_float(s):
    """float(s) for a SymStr."""
    s = s.strip()
    if isinstance(s, str):
        return float(s)
    cells = [c for c in s.cells if type(c) is not PadTok]
    if len(cells) == 1 and type(cells[0]) is NumTok:
        t = cells[0]
        return SymFloat(t.val)
    if any(type(c) is NumTok for c in cells):
        if all(type(c) is NumTok or (type(c) is str and not
               (ord(c) < MAXCODE and NUMCHARS >> ord(c) & 1)) for c in cells) \
                and any(type(c) is str and c not in "_E" for c in cells):
            raise ValueError("could not convert string to float: %r" % (s,))
        if all(type(c) is NumTok for c in cells):
            # two adjacent numerals, e.g. "1.52.5": not pinned unless needed
            return float(s.realize("float() of juxtaposed numerals"))
        if impossible(cells, FLOATCHARS, FLOATFIRST):
            raise ValueError("could not convert string to float: %r" % (s,))
        return float(s.realize("float() of mixed text"))
    return parse_chars(s, False)


FLOATCHARS = mask_of("0123456789+-._eEinfatyINFATY")
FLOATFIRST = mask_of("0123456789+-.inIN")
INTCHARS = mask_of("0123456789+-_")


def impossible(cells, allowed, first):
    """Some cell is certainly no part of a numeral."""
    for i, c in enumerate(cells):
        m = first if i == 0 else allowed
        if type(c) is str:
            if ord(c) >= MAXCODE:
                return not c.isdigit()
            if not m >> ord(c) & 1:
                return True
        elif type(c) is SChar and not c.dom() & m:
            return True
    return False


def parse_int(s):
    s = s.strip()
    if isinstance(s, str):
        return int(s)
    cells = [c for c in s.cells if type(c) is not PadTok]
    if len(cells) == 1 and type(cells[0]) is NumTok:
        t = cells[0]
        if t.kind == "i" and t.spec in ("%s", "%d"):
            return mkint(z3.ToInt(t.e))
        if t.spec == "%d":
            return SymFloat(t.val).trunc()
        if t.spec == "%s" and t.kind == "f":
            raise ValueError("invalid literal for int() with base 10: %r" % (s,))
        return int(s.realize("int() of a formatted float"))
    if any(type(c) is NumTok for c in cells):
        if impossible(cells, INTCHARS, INTCHARS):
            raise ValueError("invalid literal for int() with base 10: %r" % (s,))
        return int(s.realize("int() of mixed text"))
    return parse_chars(s, True)


def parse_chars(s, as_int):
    """Recognise a numeral over symbolic characters (forking on classes)."""
    cells = list(s.cells)
    ctx = core.CTX
    what = "int" if as_int else "float"

    def bad():
        return ValueError("could not convert string to %s" % what)
    if impossible(cells, INTCHARS if as_int else FLOATCHARS,
                  INTCHARS if as_int else FLOATFIRST):
        raise bad()
    # decide every char's class first: digit / sign / dot / e / other
    digs = []
    kinds = []
    for c in cells:
        if cell_in(c, DIGIT):
            kinds.append("d")
        elif cell_in(c, mask_of("+-")):
            kinds.append("s")
        elif not as_int and cell_in(c, mask_of(".")):
            kinds.append(".")
        elif not as_int and cell_in(c, mask_of("eE")):
            kinds.append("e")
        elif cell_in(c, mask_of("_")):
            kinds.append("_")
        elif not as_int and cell_in(c, mask_of("infatyINFATY")):
            kinds.append("a")
        else:
            raise bad()
    text = "".join(kinds)
    import re
    if "a" in text:
        # nan, inf, infinity in any case
        body = text[1:] if text[0] == "s" else text
        if body.strip("a"):
            raise bad()
        for word in ("nan", "inf", "infinity"):
            if len(body) == len(word) and all(
                    cell_in(c, mask_of(w + w.upper())) for c, w in zip(cells[-len(word):], word)):
                if word != "nan" and text[0] == "s" and cell_in(cells[0], mask_of("-")):
                    return -math.inf
                return math.nan if word == "nan" else math.inf
        raise bad()
    dd = r"d+(_d+)*"
    if not re.match(r"s?%s$" % dd if as_int else r"s?(%s(\.(%s)?)?|\.%s)(es?%s)?$" % (dd, dd, dd, dd), text):
        raise bad()
    if "_" in text or "e" in text:
        # rare spellings (inf, nan, 1_0, 1e5): settle them concretely
        r = s.realize("%s() of an unusual numeral spelling" % what)
        return int(r) if as_int else float(r)
    neg = None
    val = z3.IntVal(0)
    scale = 0
    seen_dot = False
    for c, k in zip(cells, kinds):
        if k == "s":
            neg = cell_in(c, mask_of("-"))
        elif k == ".":
            seen_dot = True
        else:
            val = val * 10 + (cexpr(c) - 48)
            if seen_dot:
                scale += 1
    if neg:
        val = -val
    if as_int:
        return mkint(val)
    return SymFloat(z3.simplify(z3.ToReal(val) / z3.RealVal(10 ** scale)))
