"""C08 - malformed records are rejected, never misread."""
from props import nad, refna, shapes, common
from props import C02

BOUNDS = shapes.BOUND_TEXT + (
    "; one fault per file: a symbolic record loses or gains one value at a symbolic position, one value becomes a "
    "text token of two symbolic letters (or, in integer records, a fraction), or a blank line appears at any "
    "place inside the data section")
ASSUMPTIONS = [
    "header texts start with a letter that starts no numeral, so that a header text is never itself a number",
]


def faulty(sx, ffi, kw, kind, part, each=False):
    nappy = sx.nappy()
    kw = dict(kw, alpha=True)
    d = nad.build(sx, ffi, **kw)
    hb = [("N", [0, 0], "i")] + refna.header_records(d, 0)[1:]
    data = refna.data_records(d)
    h = C02.render(sx, hb, "%s", "  ")
    n = len(h)
    h[0] = "%d  %d" % (n, ffi)
    b = C02.render(sx, data, "%s", "  ")
    if kind == "blank":
        p = sx.pick("line", common.thin(range(len(b))))
        b = b[:p] + [sx.pick("blank", ["", "  ", "\t"])] + b[p:]
    else:
        recs, lines = (hb, h) if part == "header" else (data, b)
        # line of each record
        at = {}
        i = 0
        for k, r in enumerate(recs):
            if r[0] == "N" and not r[1]:
                continue
            at[k] = i
            i += 1
        cands = [k for k in range(len(recs)) if recs[k][0] == "N" and recs[k][1]]
        spots = []
        for k in cands:
            m = len(recs[k][1])
            if kind == "extra":
                spots.extend([(k, 0), (k, m)] if m > 0 else [(k, 0)])
            else:
                spots.extend((k, p) for p in range(m))
        if kind == "missing" and part == "data":
            # without the items up to the count, the next value becomes the
            # count: that is another file, possibly a conforming one
            spots = [s for s in spots if not shifts_count(ffi, recs, s)]
        if kind == "frac":
            spots = [s for s in spots if recs[s[0]][2] == "i"]
        k, p = sx.pick("spot", common.thin(spots))
        toks = lines[at[k]].split()
        if kind == "extra":
            toks = toks[:p] + [sx.pick("extra", ["0", "7", "1.5"])] + toks[p:]
        elif kind == "missing":
            toks = toks[:p] + toks[p + 1:]
        elif kind == "text":
            toks = toks[:p] + [sx.str("bad", 2, mask=sx.ALPHA, first=sx.ALPHA, last=sx.ALPHA)] + toks[p + 1:]
        else:
            toks = toks[:p] + [toks[p] + ".5"] + toks[p + 1:]
        if each and toks:
            new = list(toks)
        else:
            new = ["  ".join(toks)]
        lines[at[k]:at[k] + 1] = new
        if kind == "missing" and not toks and part == "data":
            # a record that vanished altogether is truncation or a blank line
            pass
    text = "\n".join(h + b) + "\n"
    sx.put("i.na", text)
    sx.observe(text)
    try:
        with nappy.openNAFile("i.na") as f:
            f.readData()
        bad = False
    except Exception:
        bad = True
    sx.check(bad, "malformed file was read without an error")


def shifts_count(ffi, recs, spot):
    k, p = spot
    if ffi in (2110, 2310):
        return recs[k][3:] == ("X",) and p < 2
    return ffi == 2160 and recs[k][3:] == ("X",) and p < 1 and len(recs[k][1]) > 1


def wellformed(sx, ffi, kw):
    """the same generator without a fault is accepted"""
    nappy = sx.nappy()
    d = nad.build(sx, ffi, **dict(kw, alpha=True))
    n, lines = C02.build(sx, d, "%s")
    sx.put("i.na", "\n".join(lines) + "\n")
    f = nappy.openNAFile("i.na")
    f.readData()
    sx.observe(f.V)
    sx.check_eq(f.V, d["V"], "values")


KINDS = [("extra", "header"), ("extra", "data"), ("missing", "header"), ("missing", "data"),
         ("text", "header"), ("text", "data"), ("frac", "header"), ("blank", "data")]


def cases(tier):
    out = []
    for i, (name, ffi, kw) in enumerate(shapes.shapes(tier)):
        out.append({"name": name + ".ok", "fn": "wellformed", "params": {"ffi": ffi, "kw": kw}})
        large = any(name == x[0] for x in shapes.LARGE + shapes.HUGE)
        for j, (kind, part) in enumerate(KINDS):
            if large and tier == "quick" and (i + j) % 4:
                continue
            out.append({"name": "%s.%s.%s" % (name, kind, part), "fn": "faulty",
                        "params": {"ffi": ffi, "kw": kw, "kind": kind, "part": part}})
    return out
