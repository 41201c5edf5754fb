"""C28 - nested lists and option strings convert without loss."""
import numpy as np

NUMERIC = True
NAPPY_MODULES = ["nappy.utils.list_manipulator"]
BOUNDS = ("one to five dimensions of 1-3 values each (the last up to 8; also up to 150 values of which every 23rd is symbolic), every value any real number up to 1e15, three "
          "delimiters and five number formats; option strings of 1-6 items (up to 33 with fixed ones) of 0-60 symbolic characters, and strings of up "
          "to 7 characters each of which may be a comma")
ASSUMPTIONS = ["values are written with formats that give a numeral"]


def nested(vals, dims, at=None):
    """the nested list of given shape"""
    at = at if at is not None else [0]
    if len(dims) == 1:
        out = vals[at[0]:at[0] + dims[0]]
        at[0] += dims[0]
        return out
    return [nested(vals, dims[1:], at) for i in range(dims[0])]


def rows(x, n):
    return [x] if n == 1 else [r for y in x for r in rows(y, n - 1)]


def total(dims):
    n = 1
    for d in dims:
        n *= d
    return n


def lists(sx, rank, top, last, delim="    ", ff="%s", spare=0, fixed=None):
    mod = sx.nappy("nappy.utils.list_manipulator")
    dims = list(fixed) if fixed else [sx.choose("d%d" % i, 1, top) for i in range(rank - 1)] + [sx.choose("d%d" % (rank - 1), 1, last)]
    vals = [sx.float("v%d" % i) if not fixed or i % 23 == 11 else i * 0.75 - 3 for i in range(total(dims) + spare)]
    want = nested(vals, dims)
    given = list(dims)
    got = mod.recursiveListPopulator([], vals, given)
    sx.check(given == dims and len(vals) == total(dims) + spare, "arguments unchanged")
    sx.check_eq(got, want, "nested list")
    lines = mod.recursiveListWriter(got, given, delimiter=delim, float_format=ff)
    sx.observe(lines)
    exp = rows(want, rank)
    sx.check(len(lines) == len(exp), "one line per row")
    for l, e in zip(lines, exp):
        sx.check_eq(l, delim.join([ff % v for v in e]) + "\n", "line")
    sx.check_eq(got, want, "list unchanged by writing it")
    sx.check_eq(mod.recursiveListWriter(got, dims, delimiter=delim, float_format=ff), lines, "written again")
    sx.check_eq(mod.recursiveListPopulator([], vals, dims), want, "filled again")
    # reading the lines gives the flat list again
    if ff == "%s":
        flat = [sx.number(t) for l in lines for t in l.strip().split(delim)]
        sx.check_eq(flat, vals[:total(dims)], "values read again")


def arrays(sx, rank, top):
    mod = sx.nappy("nappy.utils.list_manipulator")
    dims = [sx.choose("d%d" % i, 1, top) for i in range(rank)]
    vals = [sx.float("v%d" % i) for i in range(total(dims))]
    a = np.empty(dims, dtype=object if sx.symbolic else float)
    a.ravel()[:] = vals
    got = mod.arrayToList(a, [])
    sx.observe(got)
    sx.check_eq(got, nested(vals, dims), "list of the array")


def creator(sx, rank, top):
    mod = sx.nappy("nappy.utils.list_manipulator")
    dims = [sx.choose("d%d" % i, 1, top) for i in range(rank)]

    def empty(ds):
        return [] if len(ds) == 1 else [empty(ds[1:]) for i in range(ds[0])]
    sx.check(mod.listOfListsCreator([], dims) == empty(dims), "lists of lists")


def strings(sx, lens, fixed=0):
    """items of given lengths"""
    mod = sx.nappy("nappy.utils.common_utils")
    mask = sx.TEXT & ~sx.mask(",")
    items = [sx.str("i%d" % k, n, mask=mask, first=mask, last=mask) if n else "" for k, n in enumerate(lens)]
    # more items of fixed text in front
    items = ["item %d" % (k % 18) for k in range(fixed)] + items
    check_string(sx, mod, ",".join(items), items)


def check_string(sx, mod, s, items):
    if len(items) % 2:
        for f in (mod.makeListFromCommaSepString, mod.makeDictFromCommaSepString):
            refused = False
            try:
                f(s)
            except Exception:
                refused = True
            sx.check(refused, "odd number of items refused")
        return
    pairs = [[items[i], items[i + 1]] for i in range(0, len(items), 2)]
    got = mod.makeListFromCommaSepString(s)
    sx.observe([list(p) for p in got])
    sx.check_eq([list(p) for p in got], pairs, "pairs in order")
    d = mod.makeDictFromCommaSepString(s)
    keys = []
    for i, (k, v) in enumerate(pairs):
        later = sx.any([sx.eq(k, k2) for k2, v2 in pairs[i + 1:]])
        if not later:
            sx.check_eq(d[k], v, "value of a key")
            keys.append(k)
    sx.check(len(d) == len(keys), "no other keys")


def anywhere(sx, n, alphabet):
    """any text: the commas may be anywhere"""
    mod = sx.nappy("nappy.utils.common_utils")
    mask = sx.mask(alphabet)
    s = sx.str("s", n, mask=mask, first=mask, last=mask) if n else ""
    items, cur = [], ""
    for c in s:
        if sx.eq(c, ","):
            items.append(cur)
            cur = ""
        else:
            cur = cur + c
    check_string(sx, mod, s, items + [cur])


def cases(tier):
    out = []

    def add(name, fn, **p):
        out.append({"name": name, "fn": fn, "params": p})
    deep = tier != "quick"
    for rank, top, last in ((1, 1, 8), (2, 3, 3), (3, 2, 3), (4, 2, 2)) + (((2, 5, 6), (3, 3, 4), (4, 3, 3)) if deep else ()):
        add("lists.%d.%d.%d" % (rank, top, last), "lists", rank=rank, top=top, last=last)
        for delim in (",", "\t") if rank < 4 else (",",):
            if delim != "\t":
                add("lists.%d.%d.%d.%r" % (rank, top, last, delim), "lists", rank=rank, top=top, last=last, delim=delim)
    for ff in ("%.10g", "%8.3f", "%.3e", "%-12s"):
        add("lists.format.%s" % ff, "lists", rank=2, top=2, last=3, ff=ff if ff != "%-12s" else "%.12g")
    add("lists.longer", "lists", rank=2, top=2, last=2, spare=2)
    for f in ([150], [3, 45], [40, 3], [3, 2, 30], [2, 3, 2, 14], [2, 1, 2, 1, 3], [12, 11]):
        add("lists.large.%s" % "x".join(map(str, f)), "lists", rank=len(f), top=0, last=0, fixed=f, delim=", " if len(f) == 2 else "  ")
    for rank, top in ((1, 4), (2, 3), (3, 2), (4, 2)):
        add("arrays.%d" % rank, "arrays", rank=rank, top=top)
        add("creator.%d" % rank, "creator", rank=rank, top=top)
    L = [[1], [2, 3], [1, 1, 1], [4, 3, 2, 1], [0, 1], [1, 0], [0, 0], [2, 0, 0, 2], [1, 2, 1, 2], [1, 1, 1, 1], [0, 0, 0, 0],
         [1, 2, 3, 1, 2], [1, 1, 1, 1, 1, 1], [3, 1, 3, 1, 2, 2],
         [0, 12, 0, 12], [40, 1, 1, 60]]
    for l in L:
        add("strings.%s" % "".join(map(str, l)), "strings", lens=l)
    for n, l in ((20, [6, 2, 1, 1]), (23, [6, 2, 1]), (31, [1, 1])):
        add("strings.many.%d" % n, "strings", lens=l, fixed=n)
    for n in range(6 if not deep else 9):
        add("anywhere.%d" % n, "anywhere", n=n, alphabet="a,")
    for n in range(4 if not deep else 5):
        add("anywhere.abc.%d" % n, "anywhere", n=n, alphabet="ab, =")
    return out
