"""C06 - annotation and no-header options change the presentation only."""
from props import nad, refna, shapes, common

BOUNDS = shapes.BOUND_TEXT + "; delimiters: 4 blanks, one blank, tab, comma"
ASSUMPTIONS = []


def options(sx, ffi, kw, delim, ff="%.10g"):
    nappy = sx.nappy()
    d = nad.build(sx, ffi, **kw)
    w = lambda name, **o: refna.split_lines(common.write(sx, nappy, nad.clone(d), name,
                                                         delimiter=delim, float_format=ff, **o))
    plain = w("p.na")
    body = w("b.na", no_header=True)
    note = w("n.na", annotation=True)
    nbody = w("nb.na", annotation=True, no_header=True)
    sx.observe(note)
    n = int(refna.tokens(plain[0], delim)[0])
    sx.check_eq(body, plain[n:], "no-header file is the data section")
    sx.check_eq(len(note), len(plain), "the annotated file has as many lines")
    sx.check_eq(nbody, note[n:], "annotated no-header file is the annotated data section")
    for i in range(len(plain)):
        a = note[i].strip(" \t")
        p = plain[i].strip(" \t")
        # a label column, then the line
        if p == "":
            sx.check(a != "", "line %d has a label" % i)
            continue
        sx.check(a.endswith(p), "line %d: annotated line ends with the plain line" % i)
        label = a.removesuffix(p)
        sx.check(label.strip() != "", "line %d has a label" % i)
        if delim == ",":
            sx.check("," in label, "line %d: label is a column of its own" % i)
            sx.check_eq(label.count(","), 1, "line %d: one column is added" % i)
        else:
            sx.check(delim in label, "line %d: delimiter after the label" % i)


def cases(tier):
    out = []
    delims = ["    ", ",", "\t", " "]
    for i, (name, ffi, kw) in enumerate(shapes.shapes(tier)):
        for j, dl in enumerate(delims):
            if j == 0 or j == 1 + i % 3 or tier != "quick":
                out.append({"name": "%s.%d" % (name, j), "fn": "options",
                            "params": {"ffi": ffi, "kw": kw, "delim": dl,
                                       "ff": ["%.10g", "%.3e", "%8.3f", "%s"][i % 4]}})
    return out
