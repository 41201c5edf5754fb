"""C07 - CSV output carries the same values separated by commas."""
from props import nad, refna, shapes, common
from props import C02

BOUNDS = shapes.BOUND_TEXT + "; annotation and no-header on and off; default and explicit output name"
ASSUMPTIONS = ["the two dates of the header stay two comma separated groups of three blank separated numbers"]


def cells(line):
    """comma separated values; the separator may be followed by blanks and a
    separator may end the line"""
    out = []
    for c in line.split(","):
        out.extend(c.split())
    return out


def csv(sx, ffi, kw, ann, nohead, named, ff="%s"):
    nappy = sx.nappy()
    d = nad.build(sx, ffi, **kw)
    n, lines = C02.build(sx, d, ff)
    sx.put("in.na", "\n".join(lines) + "\n")
    o = {}
    if ann:
        o["annotation"] = True
    if nohead:
        o["no_header"] = True
    if named:
        nappy.convertNAToCSV("in.na", csv_file="x.csv", **o)
        out = "x.csv"
    else:
        nappy.convertNAToCSV("in.na", **o)
        out = "in.csv"
    sx.check(sx.exists(out), "output file exists")
    sx.check_eq(sx.text("in.na"), "\n".join(lines) + "\n", "input unchanged")
    text = sx.text(out)
    sx.observe(text)
    got = refna.split_lines(text)
    if ann:
        lab = []
        for line in got:
            sx.check("," in line, "annotated line has a label column")
            k = line.index(",")
            lab.append(line[:k])
            # no value hides in the label: labels of data lines are all alike
        got = [line[line.index(",") + 1:] for line in got]
    recs = refna.header_records(d, n)
    if nohead:
        p = 0
    else:
        p = match(sx, got, 0, recs, "header", None)
        sx.check_eq(p, n, "header lines")
    # values go through the library's default format
    p = match(sx, got, p, refna.data_records(C02_expected(d, ff)), "data", "%.10g")
    sx.check_eq(p, len(got), "no lines are added")


def C02_expected(d, ff):
    return d


def match(sx, lines, pos, recs, what, ff):
    for k, rec in enumerate(recs):
        where = "%s record %d" % (what, k)
        if rec[0] == "N" and not rec[1]:
            continue
        if pos >= len(lines):
            sx.fail(where + ": file ends early")
            return pos
        if rec[0] == "S":
            sx.check_eq(lines[pos].strip(), rec[1].strip(), where + " (text)")
            pos += 1
            continue
        if what == "data" or rec[2] == "d":
            # one line per record and commas exactly between the values
            sx.check_eq(strip_last(lines[pos]).count(","), len(rec[1]) - 1, where + ": commas")
        got = cells(lines[pos])
        pos += 1
        sx.check_eq(len(got), len(rec[1]), where + ": number of values")
        if len(got) != len(rec[1]):
            return pos
        for t, v in zip(got, rec[1]):
            if rec[2] == "i":
                sx.check_eq(int(t), v, where + " (integer)")
            elif rec[2] == "d":
                sx.check_eq(float(t), float("%.10g" % v), where + " (number)")
            else:
                sx.check_eq(float(t), v, where + " (number)")
    return pos


def strip_last(line):
    line = line.strip()
    if line.endswith(","):
        line = line[:-1]
    return line


def cases(tier):
    out = []
    small = [s[0] for s in shapes.small(tier)]
    for i, (name, ffi, kw) in enumerate(shapes.shapes(tier)):
        for a in (0, 1):
            for h in (0, 1):
                if (a, h) == (0, 0) or name in small or (a + 2 * h) == 1 + i % 3:
                    out.append({"name": "%s.a%dh%d" % (name, a, h), "fn": "csv",
                                "params": {"ffi": ffi, "kw": kw, "ann": bool(a), "nohead": bool(h),
                                           "named": (i + a + h) % 2 == 0}})
    return out
