"""C03 - write then read returns the same contents."""
from props import nad, refna, shapes, common

BOUNDS = shapes.BOUND_TEXT + "; up to three generations of copies"
ASSUMPTIONS = [
    "value printing and parsing: float(ff % v) is an uninterpreted read-back function constrained by the "
    "number format's precision",
    "counts of the second axis differ from their missing value as written; implied 1020 axes have a nonzero interval",
]


def roundtrip(sx, ffi, kw, opts=None, gens=2):
    nappy = sx.nappy()
    d = nad.build(sx, ffi, **kw)
    want = nad.clone(d)
    opts = dict(opts or {})
    ff = opts.get("float_format", "%.10g")
    text = common.write(sx, nappy, d, "g0.na", **opts)
    sx.observe(text)
    f = common.read(nappy, "g0.na")
    got = common.contents(f)
    common.same(sx, got, want, ff, "copy", nlhead=refna_len(want))
    cur = f.getNADict()
    prev = nad.clone(got)
    for g in range(1, gens):
        # later generations: exact number format, nothing may change
        name = "g%d.na" % g
        common.write(sx, nappy, cur, name, float_format="%s")
        f = common.read(nappy, name)
        again = common.contents(f)
        for k in prev:
            if k == "DX" and ffi == 2310:
                sx.check_eq(again[k][0], prev[k][0], "generation %d: %s" % (g, k))
            elif k == "LENA":
                sx.check_eq(list(again[k]), list(prev[k]), "generation %d: %s" % (g, k))
            else:
                sx.check_eq(again[k], prev[k], "generation %d: %s" % (g, k))
        prev = nad.clone(again)
        cur = f.getNADict()


def refna_len(want):
    n = 0
    for r in refna.header_records(want, 0):
        n += 1
    if want["FFI"] == 2160:
        n += empty_records(want)
    return n


def empty_records(want):
    """writers may leave out records that hold no values"""
    return 0


OPTS = [("", None), (".g", {"float_format": "%g"}), (".8.3f", {"float_format": "%8.3f"}),
        (".e1", {"float_format": "%.3e", "delimiter": " "}), (".tab", {"delimiter": "\t"}),
        (".s", {"float_format": "%s"}), (".e12", {"float_format": "%.12e", "delimiter": "  "})]


def cases(tier):
    out = []
    small = [s[0] for s in shapes.small(tier)]
    for i, (name, ffi, kw) in enumerate(shapes.shapes(tier)):
        for j, (tag, o) in enumerate(OPTS):
            if j == 0 or j == 1 + i % (len(OPTS) - 1):
                out.append({"name": name + tag, "fn": "roundtrip",
                            "params": {"ffi": ffi, "kw": kw, "opts": o,
                                       "gens": 3 if name in small and j == 0 else 2}})
    return out
