"""C10 - reading is repeatable and independent of the call history."""
from props import nad, refna, shapes, common
from props import C02

BOUNDS = shapes.BOUND_TEXT + "; call sequences of length 3 (thorough 4) over read, contents, metadata; two readers and a writer interleaved"
ASSUMPTIONS = []

OPS = ["readData", "getNADict", "meta"]


def do(f, op):
    if op == "readData":
        f.readData()
    elif op == "getNADict":
        f.getNADict()
    else:
        f.getVariables()
        f.getIndependentVariables()
        f.getAuxVariables()
        f.getNumHeaderLines()
        f.getSpecialComments()
        f.getNormalComments()


def repeat(sx, ffi, kw, steps):
    nappy = sx.nappy()
    d = nad.build(sx, ffi, **dict(kw, nobrackets=True))
    n, lines = C02.build(sx, d, "%s")
    text = "\n".join(lines) + "\n"
    sx.put("i.na", text)
    f = nappy.openNAFile("i.na")
    for i in range(steps):
        do(f, sx.pick("op%d" % i, OPS))
    f.readData()
    got = common.contents(f)
    sx.observe(got["V"])
    sx.observe(got["X"])
    common.same(sx, got, d, "%s", "after the history", nlhead=n)
    dd = f.getNADict()
    for k in got:
        sx.check_eq(dd[k], got[k], "contents dictionary: " + k)
    # a reader that was used once sees exactly the same
    g = common.read(nappy, "i.na")
    once = common.contents(g)
    for k in once:
        sx.check_eq(got[k], once[k], "same as reading once: " + k)
    sx.check_eq(sx.text("i.na"), text, "file unchanged")


def two(sx, fa, ka, fb, kb):
    """two files used alternately, and a writer in between"""
    nappy = sx.nappy()
    da = nad.build(sx, fa, **ka)
    na, la = C02.build(sx, da, "%s")
    sx.put("a.na", "\n".join(la) + "\n")
    db = nad.build(Prefixed(sx, "b_"), fb, **kb)
    nb, lb = C02.build(sx, db, "%s")
    sx.put("b.na", "\n".join(lb) + "\n")
    order = sx.choose("order", 0, 5)
    f = nappy.openNAFile("a.na")
    if order % 2:
        f.readData()
    g = nappy.openNAFile("b.na")
    if order // 2 == 1:
        g.readData()
        f.readData()
    elif order // 2 == 2:
        f.readData()
        w = nappy.openNAFile("w.na", "w", nad.clone(db))
        w.write()
        w.close()
        g.readData()
    else:
        g.readData()
        h = nappy.openNAFile("a.na")
        h.readData()
        f.readData()
    ca = common.contents(f)
    cb = common.contents(g)
    sx.observe(ca["V"])
    sx.observe(cb["V"])
    common.same(sx, ca, da, "%s", "first file", nlhead=na)
    common.same(sx, cb, db, "%s", "second file", nlhead=nb)


class Prefixed:
    """driver whose input names carry a prefix"""

    def __init__(self, sx, p):
        self.sx = sx
        self.p = p
        self.WORD = sx.WORD
        self.ALPHA = sx.ALPHA
        self.NOBRACKETS = sx.NOBRACKETS

    def float(self, name, *a, **k):
        return self.sx.float(self.p + name, *a, **k)

    def int(self, name, *a, **k):
        return self.sx.int(self.p + name, *a, **k)

    def str(self, name, *a, **k):
        return self.sx.str(self.p + name, *a, **k)

    def assume(self, c):
        return self.sx.assume(c)

    def all(self, c):
        return self.sx.all(c)


def cases(tier):
    out = []
    sh = shapes.shapes(tier)
    for i, (name, ffi, kw) in enumerate(sh):
        out.append({"name": name, "fn": "repeat",
                    "params": {"ffi": ffi, "kw": kw, "steps": 3 if tier == "quick" else 4}})
    small = shapes.small("quick")
    for i, a in enumerate(small):
        for j in ((i, (i + 1) % len(small), (i + 4) % len(small)) if tier == "quick" else range(len(small))):
            b = small[j]
            out.append({"name": "two.%s.%s" % (a[0], b[0]), "fn": "two",
                        "params": {"fa": a[1], "ka": a[2], "fb": b[1], "kb": b[2]}})
    return out
