"""C01 - files written follow the NASA Ames record layout."""
from props import nad, refna, shapes

BOUNDS = shapes.BOUND_TEXT
ASSUMPTIONS = [
    "value printing and parsing: float(ff % v) is an uninterpreted read-back function constrained by the "
    "number format's precision; text of a number has no blanks or commas inside",
    "NX, NXDEF, NVPM and sizes are concrete per case",
]


def layout(sx, ffi, kw, opts=None, ff="%.10g", open_mode="w", delim=None):
    nappy = sx.nappy()
    d = nad.build(sx, ffi, **kw)
    want = nad.clone(d)
    opts = dict(opts or {})
    f = nappy.openNAFile("o.na", "w", d)
    f.write(**opts)
    f.close()
    text = sx.text("o.na")
    sx.observe(text)
    lines = refna.split_lines(text)
    delim = opts.get("delimiter", "    ")
    ff = opts.get("float_format", "%.10g")
    n = int(refna.tokens(lines[0], delim)[0])
    p = refna.match(sx, lines, 0, refna.header_records(want, n), "header", delim=delim, ff=ff)
    sx.check_eq(p, n, "the header has as many lines as the first line declares")
    p = refna.match(sx, lines, p, refna.data_records(want), "data", delim=delim, ff=ff)
    sx.check_eq(p, len(lines), "nothing follows the last record")


OPTS = [("", None), (".g", {"float_format": "%g"}), (".8.3f", {"float_format": "%8.3f"}),
        (".e1", {"float_format": "%.3e", "delimiter": " "}), (".tab", {"delimiter": "\t"}),
        (".s", {"float_format": "%s"})]


def cases(tier):
    out = []
    sh = shapes.shapes(tier)
    for i, (name, ffi, kw) in enumerate(sh):
        for j, (tag, o) in enumerate(OPTS):
            if j == 0 or j == 1 + i % (len(OPTS) - 1) or (tier != "quick" and len(sh) and i % 3 == 0):
                out.append({"name": name + tag, "fn": "layout",
                            "params": {"ffi": ffi, "kw": kw, "opts": o}})
    return out
