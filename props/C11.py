"""C11 - implied axis values are expanded exactly."""
from props import ncd, naconv, nad

NUMERIC = True
NAPPY_MODULES = ncd.NAPPY_MODULES
BOUNDS = ("formats 1020, 2010, 3010, 4010 (and 1001, 1010, which have no implied values): one to four axes of 1-5 values, "
          "every combination of recorded and implied axes; every first value, recorded value and interval any real "
          "number up to 1e15, intervals also zero or negative; axes asked for once or twice, data read before or after")
ASSUMPTIONS = ["values and intervals are exact real numbers during the symbolic run; witnesses are compared in floating "
               "point with a relative tolerance of 1e-6"]


def axes_of(v):
    return [naconv.tolist(v.coords[n]) for n in v.dims]


def expand(sx, ffi, kw, twice):
    nappy = sx.nappy()
    mod = sx.nappy("nappy.nc_interface.na_to_xarray")
    d = naconv.contents(sx, ffi, kw)
    naconv.put(sx, d)
    rec = naconv.values(nappy)
    # the definition is the one in the file (not what the reader made of it)
    for k in range(ffi // 1000 - 1):
        sx.check_eq([rec["NX"][k], rec["NXDEF"][k]], [d["NX"][k], d["NXDEF"][k]], "lengths read")
    want = naconv.expanded(rec)
    f = nappy.openNAFile("in.na")
    if twice == "read":
        f.readData()
    if twice == "normalised":       # axes expanded by hand before the conversion
        f.readData()
        for i in range(2):
            if hasattr(f, "_normalizeIndVars"):
                f._normalizeIndVars()
    conv = mod.NADictToXarrayObjects(f)
    prim, aux, glob = conv.convert()
    got = [axes_of(v) for v in prim]
    sx.observe(got)
    for g in got:
        sx.check(len(g) == len(want), "number of axes")
        for i, (a, b) in enumerate(zip(g, want)):
            sx.check(len(a) == len(b), "axis %d: declared length" % i)
            sx.check_eq(a, b, "axis %d: values" % i)
    for v in aux:
        sx.check_eq(axes_of(v)[0], rec["X"] if ffi < 2000 else rec["X"][0], "axis of auxiliary variables")
    if twice == "again":
        prim, aux, glob = conv.convert()
        sx.check_eq([axes_of(v) for v in prim], got, "converted again")
        conv2 = mod.NADictToXarrayObjects(f)
        prim, aux, glob = conv2.convert()
        sx.check_eq([axes_of(v) for v in prim], got, "another conversion of the same file object")
        prim, aux, glob = nappy.readXarrayObjectsFromNA("in.na")
        sx.check_eq([axes_of(v) for v in prim], got, "converted by the library function")


def cases(tier):
    out = []
    for name, ffi, kw in naconv.more(tier):
        for t in ("once", "again", "read", "normalised"):
            out.append({"name": "%s.%s" % (name, t), "fn": "expand", "params": {"ffi": ffi, "kw": kw, "twice": t}})
    return out
