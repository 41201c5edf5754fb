"""C05 - writing never changes the caller's contents."""
from props import nad, refna, shapes, common

BOUNDS = shapes.BOUND_TEXT + "; sequences of three writes with every combination of options"
ASSUMPTIONS = ["the format index may be added to the contents when it was absent"]

OPTS = [{}, {"annotation": True}, {"no_header": True}, {"delimiter": ","},
        {"float_format": "%.3e", "delimiter": "\t", "annotation": True}]


def unchanged(sx, ffi, kw, drop_ffi=False):
    nappy = sx.nappy()
    d = nad.build(sx, ffi, **kw)
    before = nad.clone(d)
    if drop_ffi:
        del d["FFI"]
    first = common.write(sx, nappy, d, "a.na")
    sx.observe(first)
    sx.check_eq(d, before, "contents after the first write")
    o = sx.pick("opts", OPTS)
    common.write(sx, nappy, d, "b.na", **o)
    sx.check_eq(d, before, "contents after the second write")
    if sx.choose("again", 0, 1):
        # the first file is overwritten
        third = common.write(sx, nappy, d, "a.na")
    else:
        third = common.write(sx, nappy, d, "c.na")
    sx.check_eq(d, before, "contents after the third write")
    sx.check_eq(third, first, "the third file is the same as the first")


def shared(sx, ffi, kw):
    """the writer object itself, and two writers at once"""
    nappy = sx.nappy()
    d = nad.build(sx, ffi, **kw)
    before = nad.clone(d)
    f = nappy.openNAFile("a.na", "w", d)
    g = nappy.openNAFile("b.na", "w", d)
    sx.check_eq(d, before, "contents after opening two writers")
    f.write()
    sx.check_eq(d, before, "contents after the first writer")
    g.write()
    sx.check_eq(d, before, "contents after the second writer")
    f.close()
    g.close()
    sx.check_eq(sx.text("a.na"), sx.text("b.na"), "both files are the same")
    sx.observe(sx.text("a.na"))


def cases(tier):
    out = []
    for i, (name, ffi, kw) in enumerate(shapes.shapes(tier)):
        # without a format index only shapes that imply their own
        out.append({"name": name, "fn": "unchanged", "params": {"ffi": ffi, "kw": kw}})
        out.append({"name": name + ".two", "fn": "shared", "params": {"ffi": ffi, "kw": kw}})
        if implied(ffi, kw):
            out.append({"name": name + ".noffi", "fn": "unchanged",
                        "params": {"ffi": ffi, "kw": kw, "drop_ffi": True}})
    return out


def implied(ffi, kw):
    if ffi == 2310:
        return True
    if ffi == 2110:
        return max(kw["sizes"]) > 1
    return True
