"""C12 - the right format is selected for every file and dictionary."""
from props import nad, refna, shapes, common
from props import C02

BOUNDS = shapes.BOUND_TEXT + ("; 0-3 ignored lines of 0-4 arbitrary characters; format index any integer 0-9999 "
                              "for refusal; 1-9 independent variables")
ASSUMPTIONS = ["an index none of the nine formats has is refused with an error"]


def reading(sx, ffi, kw, k, lens):
    nappy = sx.nappy()
    d = nad.build(sx, ffi, **kw)
    n, lines = C02.build(sx, d, "%s")
    extra = []
    for i in range(k):
        m = lens[i % len(lens)]
        extra.append(sx.str("ign%d" % i, m) if m else "")
    sx.put("i.na", "\n".join(extra + lines) + "\n")
    sx.check_eq(nappy.readFFI("i.na", k), ffi, "readFFI")
    f = nappy.openNAFile("i.na", ignore_header_lines=k) if k else nappy.openNAFile("i.na")
    sx.check_eq(type(f).__name__, "NAFile%d" % ffi, "class of the reader")
    sx.check_eq(list(f.ignored_header_lines), extra, "ignored lines are kept in order")
    f.readData()
    c = common.contents(f)
    sx.observe(c["V"])
    common.same(sx, c, d, "%s", "after %d ignored lines" % k)


def unknown(sx, lo, hi):
    """an index outside the nine formats is refused"""
    nappy = sx.nappy()
    d = nad.build(sx, 1001)
    n, lines = C02.build(sx, d, "%s")
    i = sx.choose("ffi", lo, hi)
    sx.assume(sx.all([i != x for x in nad.FFIS]))
    lines[0] = "%d %d" % (n, i)
    sx.put("i.na", "\n".join(lines) + "\n")
    sx.observe(lines[0])
    try:
        nappy.openNAFile("i.na")
        ok = False
    except Exception:
        ok = True
    sx.check(ok, "index %d was accepted" % i)


def topline(sx, bad):
    """a first line that is not two integers is refused"""
    nappy = sx.nappy()
    d = nad.build(sx, 1001)
    n, lines = C02.build(sx, d, "%s")
    if bad == "text":
        lines[0] = sx.str("a", 2, mask=sx.ALPHA, first=sx.ALPHA, last=sx.ALPHA) + " 1001"
    elif bad == "one":
        lines[0] = "%d" % sx.int("only", 0, 9999)
    elif bad == "three":
        lines[0] = "%d 1001 %d" % (n, sx.int("third", 0, 9999))
    elif bad == "empty":
        lines[0] = ""
    sx.put("i.na", "\n".join(lines) + "\n")
    for call in (lambda: nappy.readFFI("i.na"), lambda: nappy.openNAFile("i.na")):
        try:
            call()
            ok = False
        except Exception:
            ok = True
        sx.check(ok, "first line accepted")


def writing(sx, ffi, kw, given):
    """format index given in the contents, or implied by their shape"""
    nappy = sx.nappy()
    d = nad.build(sx, ffi, **kw)
    if not given:
        del d["FFI"]
        sx.check_eq(nappy.chooseFFI(d), ffi, "chooseFFI")
    f = nappy.openNAFile("o.na", "w", d)
    sx.check_eq(type(f).__name__, "NAFile%d" % ffi, "class of the writer")
    f.write()
    f.close()
    text = sx.text("o.na")
    sx.observe(text)
    sx.check_eq(int(refna.split_lines(text)[0].split()[1]), ffi, "format index on the first line")
    sx.check_eq(nappy.readFFI("o.na"), ffi, "readFFI of the written file")
    sx.check_eq(d.get("FFI", ffi), ffi, "format index of the contents")


def given_wins(sx, ffi, other):
    """a given format index is used whatever the shape implies"""
    nappy = sx.nappy()
    d = nad.build(sx, ffi, naux=0, m=2)
    d["FFI"] = other
    d["NAUXV"] = 0
    d["A"] = []
    d["ANAME"] = []
    d["NVPM"] = 1
    f = nappy.openNAFile("o.na", "w", d)
    sx.check_eq(type(f).__name__, "NAFile%d" % other, "class of the writer")
    f.close()


def toomany(sx, hi):
    nappy = sx.nappy()
    niv = sx.choose("niv", 5, hi)
    d = nad.build(sx, 4010, m=1, nx=(1, 1, 1))
    del d["FFI"]
    d["NIV"] = niv
    try:
        nappy.chooseFFI(d)
        ok = False
    except Exception:
        ok = True
    sx.check(ok, "%d independent variables accepted" % niv)
    try:
        nappy.openNAFile("o.na", "w", d)
        ok = False
    except Exception:
        ok = True
    sx.check(ok, "%d independent variables accepted for writing" % niv)
    sx.check("FFI" not in d, "no format index is invented")


def cases(tier):
    out = []
    from props.C05 import implied
    small = [s[0] for s in shapes.small(tier)]
    for i, (name, ffi, kw) in enumerate(shapes.shapes(tier)):
        for k in range(4):
            if name in small or k == i % 4:
                out.append({"name": "%s.ign%d" % (name, k), "fn": "reading",
                            "params": {"ffi": ffi, "kw": kw, "k": k,
                                       "lens": [[3, 0, 1], [1, 2, 4], [0, 4, 2]][i % 3]}})
        out.append({"name": name + ".w", "fn": "writing", "params": {"ffi": ffi, "kw": kw, "given": True}})
        if implied(ffi, kw):
            out.append({"name": name + ".w0", "fn": "writing", "params": {"ffi": ffi, "kw": kw, "given": False}})
    # boundary shapes for the choice
    edge = [("2010.edge", 2010, dict(m=1, nx=(1,), naux=0)), ("2110.edge", 2110, dict(sizes=[1, 1, 2], naux=1)),
            ("2110.edge2", 2110, dict(sizes=[2], naux=1)), ("2310.edge", 2310, dict(sizes=[1], naux=3)),
            ("2160.edge", 2160, dict(sizes=[1], naux=1, nauxc=0)), ("1001.edge", 1001, dict(m=1)),
            ("1010.edge", 1010, dict(m=1, naux=0)), ("1020.edge", 1020, dict(m=1, naux=0, nvpm=1)),
            ("2110.edge3", 2110, dict(sizes=[0, 3], naux=1))]
    for name, ffi, kw in edge:
        out.append({"name": name, "fn": "writing", "params": {"ffi": ffi, "kw": kw, "given": False}})
    for a, b in ((1001, 1010), (1010, 1001), (1010, 1020), (1020, 1010)):
        out.append({"name": "wins.%d.%d" % (a, b), "fn": "given_wins", "params": {"ffi": a, "other": b}})
    for lo, hi in ((0, 100), (990, 1060), (1990, 2060), (2090, 2180), (2280, 2340), (2990, 3060), (3990, 4060),
                   (4990, 5020)):
        out.append({"name": "unknown.%d" % lo, "fn": "unknown", "params": {"lo": lo, "hi": hi}})
    for b in ("text", "one", "three", "empty"):
        out.append({"name": "top." + b, "fn": "topline", "params": {"bad": b}})
    out.append({"name": "toomany", "fn": "toomany", "params": {"hi": 9}})
    return out
