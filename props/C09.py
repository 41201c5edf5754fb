"""C09 - truncated files end in an error or a whole prefix, never a hang."""
from props import nad, refna, shapes, common
from props import C02

BOUNDS = shapes.BOUND_TEXT + ("; every cut point between lines (symbolic), for files with one line per record and for "
                              "files with one value per line; termination: 250000 steps of interpreted code per path")
ASSUMPTIONS = ["header texts and station names are not numerals",
               "the last line of the truncated file is complete"]


def trunc(sx, ffi, kw, each):
    nappy = sx.nappy()
    d = nad.build(sx, ffi, **dict(kw, alpha=True))
    n, lines = C02.build(sx, d, "%s", each=each)
    cut = sx.pick("cut", common.thin(range(len(lines))))
    keep = lines[:cut]
    text = "\n".join(keep)
    if cut:
        text = text + "\n"
    sx.put("i.na", text)
    sx.observe(text)
    try:
        f = nappy.openNAFile("i.na")
        f.readData()
    except Exception:
        sx.check(True, "refused")
        return
    sx.check(cut >= n, "a file cut inside its header was accepted")
    if cut < n:
        return
    c = common.contents(f)
    # how many whole marks does it claim to hold?
    if ffi in (2010, 3010, 4010):
        m = len(c["X"][0])
    else:
        m = len(c["X"])
    total = len(d["X"][0]) if ffi in (2010, 3010, 4010) else len(d["X"])
    sx.check(m < total or each and m <= total, "more marks than the whole file holds")
    want = prefix(d, m)
    common.same(sx, c, want, "%s", "prefix of %d marks" % m, nlhead=n)
    # and every whole mark of the kept lines is there
    full = refna.data_records(want)
    _, body = C02.build(sx, want, "%s", each=each)
    sx.check_eq(len(body), len(keep), "lines of the prefix")


def prefix(d, m):
    w = nad.clone(d)
    ffi = d["FFI"]
    per = d["NVPM"] if ffi == 1020 else 1
    if ffi in (2010, 3010, 4010):
        w["X"][0] = w["X"][0][:m]
    else:
        w["X"] = w["X"][:m]
    w["V"] = [v[:m * per] for v in w["V"]]
    if ffi != 1001:
        w["A"] = [a[:m] for a in w["A"]]
    if ffi in (2110, 2160, 2310):
        w["NX"] = w["NX"][:m]
    return w


def cases(tier):
    out = []
    for i, (name, ffi, kw) in enumerate(shapes.shapes(tier)):
        out.append({"name": name, "fn": "trunc", "params": {"ffi": ffi, "kw": kw, "each": False}})
        out.append({"name": name + ".each", "fn": "trunc", "params": {"ffi": ffi, "kw": kw, "each": True}})
    return out
