"""C18 - axis definitions expand to the source coordinates."""
from props import ncd, ncshapes, ncconv

NUMERIC = True
NAPPY_MODULES = ncd.NAPPY_MODULES
BOUNDS = ncconv.BOUND
ASSUMPTIONS = ncconv.ASSUMPTIONS


def axes(sx, name, tier):
    vs, ax, outs, o = ncconv.convert(sx, name, tier)
    for d, ids in outs:
        v = ncconv.by_name(vs, ids[0][0])
        if o.get("ffi"):
            sx.check(d["FFI"] == o["ffi"], "the requested format")
        sx.check(d["NIV"] == len(v.axes) and d["FFI"] // 1000 == d["NIV"], "number of axes")
        sx.check(ncconv.plain(d["X"]) and ncconv.plain(d["DX"]), "coordinates are plain numbers")
        written = ncconv.axes_of(sx, d)
        sx.check(len(written) == len(v.axes), "number of axes described")
        for i, a in enumerate(v.axes):
            sx.check_eq(written[i], a.values, "coordinates of axis %d" % i)
        a = v.axes[0]
        if a.kind == "time":
            t = a.dates[0]
            sx.check_eq([ncconv.num(x) for x in d["DATE"]], [t.year, t.month, t.day], "DATE is the date of the first time")


def cases(tier):
    return [{"name": n, "fn": "axes", "params": {"name": n, "tier": tier}} for n in ncshapes.names(tier)]
