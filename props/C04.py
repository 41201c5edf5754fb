"""C04 - the declared header length and format index are exact."""
from props import nad, refna, shapes, common

BOUNDS = shapes.BOUND_TEXT + "; supplied header length any integer 0-999; delimiters 4 blanks, tab, comma; annotation on and off"
ASSUMPTIONS = ["the data section is the text written with the no-header option for the same contents (C06, C01 "
               "settle its layout)"]


def header(sx, ffi, kw, delim, ann, given=True):
    nappy = sx.nappy()
    d = nad.build(sx, ffi, **kw)
    want = nad.clone(d)
    text = common.write(sx, nappy, d, "o.na", delimiter=delim, annotation=ann)
    sx.observe(text)
    lines = refna.split_lines(text)
    first = lines[0]
    if ann:
        # the label column: everything up to the first delimiter
        first = first[first.index(delim) + len(delim):]
    toks = refna.tokens(first, delim)
    sx.check(len(toks) == 2, "the first line holds two numbers")
    sx.check_eq(int(toks[1]), ffi, "format index on the first line")
    n = int(toks[0])
    body = common.write(sx, nappy, nad.clone(want), "b.na", delimiter=delim, annotation=ann, no_header=True)
    blines = refna.split_lines(body)
    sx.check_eq(n + len(blines), len(lines), "header length + data lines = lines of the file")
    sx.check_eq(lines[n:], blines, "the data section starts after the declared header lines")
    if not ann and delim != ",":
        f = common.read(nappy, "o.na")
        sx.check_eq(f.getNumHeaderLines(), n, "reported header length")
        sx.check_eq(f.getFFI(), ffi, "reported format index")
        sx.check_eq(nappy.readFFI("o.na"), ffi, "readFFI")
        recs = refna.data_records(want)
        p = refna.match(sx, lines, n, recs, "data", delim=delim)
        sx.check_eq(p, len(lines), "lines after the header are the data records")


def cases(tier):
    out = []
    combos = [("    ", False), ("    ", True), (",", True), (",", False), ("\t", False), ("\t", True)]
    for i, (name, ffi, kw) in enumerate(shapes.shapes(tier)):
        for j, (dl, an) in enumerate(combos):
            if j == 0 or j == 1 + i % 5 or tier != "quick":
                out.append({"name": "%s.%d" % (name, j), "fn": "header",
                            "params": {"ffi": ffi, "kw": kw, "delim": dl, "ann": an}})
    return out
