"""Symbolic NASA Ames dictionaries, one builder for all nine FFIs.

Conventions are the ones of the NASA Ames dictionaries used by nappy: for the
2010 family the slowest varying (unbounded) axis comes first in X, XNAME, DX
and in the nesting of V[n]; NX[i] and NXDEF[i] belong to X[i+1].
"""

FFIS = [1001, 1010, 1020, 2010, 2110, 2160, 2310, 3010, 4010]
STRLEN = [1, 2, 3, 5, 8, 13]


def dtype_text(sx, name, n):
    return sx.str(name, n)


class Strings:
    """Hands out symbolic strings whose lengths cycle through a pattern."""

    # characters beyond ASCII; characters which end a line for str.splitlines, but not in a file
    UNI = {True: " \u00b5g m\u207b\u00b2 \u00e9t\u00e9", "lines": " v\x0bw\x0cx\x1cy\x1dz\x85a\u2028b\u2029c"}

    def __init__(self, sx, pattern, alpha=False, nobrackets=False, uni=False):
        self.uni = uni
        self.sx = sx
        self.kw = {}
        if nobrackets:
            self.kw["mask"] = sx.NOBRACKETS
        self.alpha = alpha
        self.pattern = pattern
        self.i = 0

    def __call__(self, name):
        n = self.pattern[self.i % len(self.pattern)]
        self.i += 1
        if self.uni:
            return self.sx.str(name, n or 1, first=self.sx.ALPHA, **self.kw) + self.UNI[self.uni][self.i % 3:]
        if self.alpha:
            # certainly not a number and not empty
            return self.sx.str(name, max(n, 1), first=self.sx.ALPHA, **self.kw)
        if n == 0:
            return ""
        return self.sx.str(name, n, **self.kw)


class Sparse:
    """Every k-th input is symbolic, the others are fixed: for sizes which are
    out of reach otherwise."""

    LETTERS = "the quick brown fox jumps over a lazy dog 0123456789;:-+"

    def __init__(self, sx, k):
        self._sx = sx
        self._k = k
        self._n = 0

    def __getattr__(self, name):
        return getattr(self._sx, name)

    def _turn(self):
        self._n += 1
        return self._n % self._k == 0

    def float(self, name, *a, **k):
        if self._turn():
            return self._sx.float(name, *a, **k)
        return (-1) ** (self._n // 5) * (self._n * 1.25 + 0.5)

    def int(self, name, lo, hi):
        if self._turn():
            return self._sx.int(name, lo, hi)
        return lo + self._n % (hi - lo + 1)

    def str(self, name, n, **k):
        if self._turn():
            # a long symbolic text costs too much, its ends are enough
            if n > 12:
                return self._sx.str(name, 6, **k) + self._text(n - 6)
            return self._sx.str(name, n, **k)
        return self._text(n)

    def _text(self, n):
        t = (self.LETTERS[self._n % 11:] + self.LETTERS) * (n // 20 + 1)
        t = t[:n]
        return "a" * (n > 0) + t[1:n - 1] + "z" * (n > 1)


def floats(sx, name, n):
    return [sx.float("%s_%d" % (name, i)) for i in range(n)]


def nested(sx, name, shape):
    if not shape:
        return sx.float(name)
    return [nested(sx, "%s_%d" % (name, i), shape[1:]) for i in range(shape[0])]


# the number formats used by the harnesses
FORMATS = ["%.10g", "%g", "%8.3f", "%.3e", "%.12e", "%.4f"]


def build(sx, ffi, nv=1, naux=0, m=1, nx=(2,), nxdef=None, nscom=1, nncom=1,
          strlen=(2, 1, 3), nvpm=2, nauxc=1, sizes=None, word_strings=False,
          ints=True, alpha=False, nobrackets=False, uni=False, sparse=0):
    """A consistent dictionary with symbolic contents.

    m      number of independent variable marks
    nx     numbers of values of the bounded axes, slowest varying first
    nxdef  numbers of values recorded in the header (default: nx)
    sizes  2110/2160/2310: number of bounded values per mark
    """
    if sparse:
        sx = Sparse(sx, sparse)
    S = Strings(sx, strlen, alpha, nobrackets, uni)
    F = sx.float

    def I(name, lo, hi):
        return sx.int(name, lo, hi) if ints else lo
    d = {"FFI": ffi, "NIV": ffi // 1000, "NLHEAD": I("NLHEAD", 0, 999)}
    for k in ("ONAME", "ORG", "SNAME", "MNAME"):
        d[k] = S(k)
    d["IVOL"] = I("IVOL", 0, 99999)
    d["NVOL"] = I("NVOL", 0, 99999)
    d["DATE"] = [I("DATE%d" % i, 0, 9999) for i in range(3)]
    d["RDATE"] = [I("RDATE%d" % i, 0, 9999) for i in range(3)]
    d["NV"] = nv
    d["VSCAL"] = floats(sx, "VSCAL", nv)
    d["VMISS"] = floats(sx, "VMISS", nv)
    d["VNAME"] = [S("VNAME%d" % i) for i in range(nv)]
    d["NSCOML"] = nscom
    d["SCOM"] = [S("SCOM%d" % i) for i in range(nscom)]
    d["NNCOML"] = nncom
    d["NCOM"] = [S("NCOM%d" % i) for i in range(nncom)]
    niv = d["NIV"]
    d["XNAME"] = [S("XNAME%d" % i) for i in range(niv)]
    ndx = 1 if ffi in (2160, 2310) else niv
    d["DX"] = floats(sx, "DX", ndx)
    if ffi != 1001:
        d["NAUXV"] = naux
        if naux > 0 and ffi != 2160:
            d["ASCAL"] = floats(sx, "ASCAL", naux)
            d["AMISS"] = floats(sx, "AMISS", naux)
        d["ANAME"] = [S("ANAME%d" % i) for i in range(naux)]
    if ffi == 1001:
        d["X"] = floats(sx, "X", m)
        d["V"] = [floats(sx, "V%d" % n, m) for n in range(nv)]
    elif ffi in (1010, 1020):
        d["X"] = floats(sx, "X", m)
        d["A"] = [floats(sx, "A%d" % a, m) for a in range(naux)]
        per = 1
        if ffi == 1020:
            d["NVPM"] = per = nvpm
            sx.assume(d["DX"][0] != 0)
        d["V"] = [floats(sx, "V%d" % n, m * per) for n in range(nv)]
    elif ffi in (2010, 3010, 4010):
        nx = list(nx)
        assert len(nx) == niv - 1
        nxdef = list(nxdef) if nxdef is not None else list(nx)
        d["NX"] = list(nx)
        d["NXDEF"] = nxdef
        d["X"] = [floats(sx, "X0", m)] + \
                 [floats(sx, "X%d" % (i + 1), nxdef[i]) for i in range(niv - 1)]
        d["A"] = [floats(sx, "A%d" % a, m) for a in range(naux)]
        d["V"] = [nested(sx, "V%d" % n, [m] + nx) for n in range(nv)]
    else:
        sizes = list(sizes) if sizes is not None else [2] * m
        m = len(sizes)
        d["NX"] = list(sizes)
        if ffi != 2160:
            # a count equal to its missing value (as written) would mean "missing"
            a = d["AMISS"][0]
            sx.assume(sx.all([m != n for n in sizes for m in [a] + [float(ff % a) for ff in FORMATS]]))
        if ffi == 2110:
            d["X"] = [[F("X0_%d" % i), floats(sx, "X1_%d" % i, sizes[i])] for i in range(m)]
            d["A"] = [list(sizes)] + [floats(sx, "A%d" % a, m) for a in range(1, naux)]
        elif ffi == 2310:
            d["X"] = [[F("X0_%d" % i), [F("X1_%d" % i)]] for i in range(m)]
            d["A"] = [list(sizes), [d["X"][i][1][0] for i in range(m)]] + \
                     [floats(sx, "A%d" % a, m) for a in range(2, naux)]
        else:
            word = 4
            names = [(sx.str("X0_%d" % i, word, first=sx.ALPHA) if alpha else
                      sx.str("X0_%d" % i, word)) if not word_strings else
                     sx.str("X0_%d" % i, word, mask=sx.WORD, first=sx.WORD, last=sx.WORD)
                     for i in range(m)]
            d["X"] = [[names[i], floats(sx, "X1_%d" % i, sizes[i])] for i in range(m)]
            nreal = naux - nauxc
            d["NAUXC"] = nauxc
            d["LENX"] = word
            d["ASCAL"] = floats(sx, "ASCAL", nreal)
            d["AMISS"] = floats(sx, "AMISS", nreal) + [S("AMISSC%d" % a) for a in range(nauxc)]
            d["LENA"] = [None] * nreal + [3 + a for a in range(nauxc)]
            d["A"] = [list(sizes)] + [floats(sx, "A%d" % a, m) for a in range(1, nreal)] + \
                     [[S("AC%d_%d" % (a, i)) for i in range(m)] for a in range(nauxc)]
        d["V"] = [[floats(sx, "V%d_%d" % (n, i), sizes[i]) for i in range(m)] for n in range(nv)]
    return d


def clone(x):
    """Deep copy of a dictionary built from lists, numbers and strings."""
    if isinstance(x, dict):
        return {k: clone(v) for k, v in x.items()}
    if isinstance(x, list):
        return [clone(v) for v in x]
    if isinstance(x, tuple):
        return tuple(clone(v) for v in x)
    return x
