"""C02 - files with any legal layout are read to the contents they record."""
from props import nad, refna, shapes, common

BOUNDS = shapes.BOUND_TEXT + (
    "; layouts: line break after any value of any multi-value record (one symbolic position), every value on its "
    "own line, separators of 1-3 blanks or tabs, leading and trailing blanks, a brace annotation of <=3 "
    "arbitrary characters after any numeric header record, or after all of them, line ends LF or CR LF, 0-2 trailing blank lines, last newline present or not")
ASSUMPTIONS = [
    "a numeral is the text of a symbolic number in format %s, %d, %.4f or %.3e; float() of that text is the "
    "uninterpreted read-back value",
    "records of counts, dates and axis intervals stay on one line (nappy documents no other layout)",
]


def render(sx, recs, ff, sep, lead="", brk=None, annot=None, each=False, trail=""):
    """Text of the records. brk: (index of a record, position of a line break
    in it); annot: (index of a record, text); each: one value per line for
    records that may be broken."""
    out = []
    for i, r in enumerate(recs):
        if r[0] == "S":
            out.append(r[1])
            continue
        toks = [("%d" % v) if r[2] == "i" else
                ("%s" % v if r[2] == "h" else ff % v) for v in r[1]]
        if not toks:
            continue
        if each and breakable(recs, i):
            for t in toks[:len(toks) - 1]:
                out.append(lead + t + trail)
            line = lead + toks[len(toks) - 1]
        elif brk is not None and brk[0] == i:
            out.append(lead + sep.join(toks[:brk[1]]) + trail)
            line = lead + sep.join(toks[brk[1]:])
        else:
            line = lead + sep.join(toks)
        if annot == "all":
            line = line + " {%s item %d, value 1.5}" % (["", "this is"][i % 2], i)
        elif annot is not None and annot[0] == i:
            line = line + " {" + annot[1] + "}"
        out.append(line + trail)
    return out


def breakable(recs, i):
    return recs[i][0] == "N" and len(recs[i][1]) > 1 and recs[i][2] != "i" and i != 7


def numeric(recs):
    return [i for i in range(len(recs)) if recs[i][0] == "N" and recs[i][1]]


def build(sx, d, ff, sep="  ", lead="", each=False, vary=None, trail=""):
    want = nad.clone(d)
    # header length: rendered once with a placeholder first record
    head = refna.header_records(want, 0)[1:]
    data = refna.data_records(want)
    hb = [("N", [0, 0], "i")] + head
    brk = ann = None
    if vary == "hbreak":
        cands = [(i, p) for i in range(len(hb)) if breakable(hb, i) for p in range(1, len(hb[i][1]))]
        if cands:
            brk = sx.pick("break", common.thin(cands))
    elif vary == "annots":
        ann = "all"
    elif vary == "annot":
        cands = numeric(hb)
        cands = cands[1:]
        ann = (sx.pick("annot", cands), sx.str("note", 3))
    h = render(sx, hb, ff, sep, lead, brk, ann, each, trail)
    first = "%d%s%d" % (len(h), sep, want["FFI"])
    brk = None
    if vary == "dbreak":
        cands = [(i, p) for i in range(len(data)) if data[i][0] == "N"
                 for p in range(1, len(data[i][1]))]
        if cands:
            brk = sx.pick("break", common.thin(cands))
    b = render(sx, [("S", "")] * 8 + data, ff, sep, lead,
               None if brk is None else (brk[0] + 8, brk[1]), None, each, trail)[8:]
    return len(h), [lead + first] + h[1:] + b


def layout(sx, ffi, kw, ff="%s", sep="  ", lead="", each=False, vary=None, trail="", tail=None, end="\n"):
    nappy = sx.nappy()
    d = nad.build(sx, ffi, **kw)
    n, lines = build(sx, d, ff, sep, lead, each, vary, trail)
    text = end.join(lines)
    if tail == "blank":
        k = sx.choose("blanks", 0, 4)
        text = text + ["", "\n\n", "\n  \n", "\n \t\n\n", "\n\n\n"][k]
    else:
        text = text + end
    sx.put("i.na", text)
    f = common.read(nappy, "i.na")
    got = common.contents(f)
    sx.observe(got["V"])
    sx.observe(got["VNAME"])
    common.same(sx, got, d, ff, "read", nlhead=n)


STYLES = [
    ("plain", {}),
    ("each", {"each": True, "sep": " "}),
    ("hbreak", {"vary": "hbreak"}),
    ("dbreak", {"vary": "dbreak", "ff": "%.3e"}),
    ("annot", {"vary": "annot"}),
    ("blanks", {"sep": " \t ", "lead": "   ", "trail": "  ", "ff": "%.4f"}),
    ("crlf", {"end": "\r\n"}),
    ("annots", {"vary": "annots", "sep": " "}),
    ("tail", {"tail": "blank", "sep": "\t"}),
]


def cases(tier):
    out = []
    small = [s[0] for s in shapes.small(tier)]
    for i, (name, ffi, kw) in enumerate(shapes.shapes(tier)):
        for j, (tag, p) in enumerate(STYLES):
            if p.get("lead") and ffi == 2160:
                p = dict(p, lead="")
            if j < 2 or name in small or j == 2 + i % 7:
                out.append({"name": "%s.%s" % (name, tag), "fn": "layout",
                            "params": dict(p, ffi=ffi, kw=kw)})
    return out
