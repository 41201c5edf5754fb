"""C24 - converted NASA Ames variables carry value times scale and own metadata."""
from props import ncd, naconv, nad

NUMERIC = True
NAPPY_MODULES = ncd.NAPPY_MODULES
BOUNDS = ("formats 1001, 1010, 1020, 2010, 3010 and 4010 with 1-3 variables, 0-3 auxiliary variables, 1-4 values per "
          "axis, recorded and implied axes; every value, scale factor, missing value, axis value and interval any real "
          "number up to 1e15, every recorded value may equal the missing value; variable names of 1-2 symbolic "
          "characters and concrete names with units; selections of variables; also up to 33 variables, "
          "14 auxiliary variables, axes of 150 values with every 13th to 31st value symbolic")
ASSUMPTIONS = ["missing values keep the fill value (they are not scaled)",
               "names of axes are concrete; a variable whose name consists of more than 63 characters is numbered",
               "the recorded contents are those returned by the reader (C02)"]


def check_axis(sx, axis, name, values, what, part=False):
    nm, units = naconv.split_units(name)
    ident = naconv.clean(nm)
    label = None
    for t, a in naconv.TYPES:
        if t in ident:
            ident, label = t, a
    if part:        # only every n-th value: an axis of its own
        sx.check(axis.name.startswith(ident) and axis.name != ident, what + ": name")
    else:
        sx.check_eq(axis.name, ident, what + ": name")
    sx.check(axis.dims == (axis.name,), what + ": dimension")
    sx.check_eq(axis.attrs["long_name"], name, what + ": description")
    sx.check_eq(axis.attrs["units"], units or "Not known", what + ": units")
    sx.check(axis.attrs.get("axis") == label, what + ": kind")
    sx.check_eq(naconv.tolist(axis), values, what + ": values")


def check_var(sx, v, num, rec, naux, axes, what):
    name, miss = rec["ANAME" if naux else "VNAME"][num], rec["AMISS" if naux else "VMISS"][num]
    scal, data = rec["ASCAL" if naux else "VSCAL"][num], rec["A" if naux else "V"][num]
    nm, units = naconv.split_units(name)
    ident = naconv.clean(nm) if len(nm) < 64 else ("naauxvariable_%d" if naux else "navariable_%d") % num
    sx.check_eq(v.name, ident, what + ": name")
    sx.check_eq(v.attrs["long_name"].lower(), ident, what + ": description")
    if units:
        sx.check_eq(v.attrs["units"], units, what + ": units")
    else:
        sx.check("units" not in v.attrs, what + ": no units")
    sx.check_eq(v.encoding["_FillValue"], miss, what + ": fill value")
    sx.check_eq(naconv.tolist(v), naconv.scaled(sx, data, miss, scal), what + ": values")
    key = "nasa_ames_aux_var_number" if naux else "nasa_ames_var_number"
    sx.check_eq(v.attrs[key], num, what + ": running number")
    use = axes[:1] if naux else axes
    sx.check(len(v.dims) == len(use), what + ": number of axes")
    for i, (n, vals) in enumerate(use):
        check_axis(sx, v.coords[v.dims[i]], n, vals, "%s: axis %d" % (what, i), naux and rec["FFI"] == 1020)


def convert(sx, ffi, kw, xnames=None, vnames=None, anames=None, symnames=None, select=None):
    nappy = sx.nappy()
    d = nad_contents(sx, ffi, kw, xnames, vnames, anames, symnames)
    naconv.put(sx, d)
    rec = naconv.values(nappy)
    axes = list(zip(rec["XNAME"], naconv.expanded(rec)))
    if select is None:
        prim, aux, glob = nappy.readXarrayObjectsFromNA("in.na")
    else:
        one = nappy.getXarrayVariableFromNA("in.na", select if isinstance(select, int) else rec["VNAME"][select[0]])
        k = select if isinstance(select, int) else select[0]
        sx.observe(naconv.tolist(one))
        check_var(sx, one, k, rec, False, axes, "variable %d alone" % k)
        return
    sx.observe([[v.name for v in prim + aux], [naconv.tolist(v) for v in prim + aux]])
    sx.check(len(prim) == rec["NV"], "every variable once")
    sx.check(len(aux) == rec.get("NAUXV", 0), "every auxiliary variable once")
    for k, v in enumerate(prim):
        check_var(sx, v, k, rec, False, axes, "variable %d" % k)
    for k, v in enumerate(aux):
        check_var(sx, v, k, rec, True, axes if ffi != 1020 else [(rec["XNAME"][0], rec["X"])], "auxiliary %d" % k)


def nad_contents(sx, ffi, kw, xnames, vnames, anames, symnames):
    if symnames:
        mask = sx.NOBRACKETS
        vnames = [sx.str("vn%d" % i, symnames, mask=mask) + " (m)" for i in range(kw["nv"])]
        for i in range(kw["nv"]):
            for j in range(i):
                sx.assume(sx.neg(sx.eq(vnames[i], vnames[j])))
    return naconv.contents(sx, ffi, kw, xnames, vnames, anames)


def cases(tier):
    out = []

    def add(name, ffi, kw, **o):
        out.append({"name": name, "fn": "convert", "params": dict(o, ffi=ffi, kw=kw)})
    for name, ffi, kw in naconv.more(tier):
        add(name, ffi, kw)
        if tier == "quick" and ffi in (1001, 2010, 1020):
            add(name + ".last", ffi, kw, select=kw["nv"] - 1)
    add("names.1", 1001, dict(nv=1, m=2), symnames=1)
    add("names.2", 1001, dict(nv=1, m=1), symnames=2)
    add("select.name", 1001, dict(nv=3, m=2), select=[1])
    add("select.name.2", 2010, dict(nv=2, m=1, nx=(2,), naux=1), select=[0])
    add("long", 1010, dict(nv=2, naux=2, m=1), vnames=["A" * 63 + " (K)", "B" * 64], anames=["C" * 70, "d (e)"])
    add("odd", 1001, dict(nv=3, m=1), vnames=["a+b=c (K m-1)", "Ozone / NO2", "100 hPa"])
    add("axes.types", 4010, dict(nv=1, naux=0, m=1, nx=(1, 2, 1)),
        xnames=["Time of day (days since 2001-01-01)", "Pressure level (hPa)", "Latitude (degrees)", "LONGITUDE (degrees)"])
    add("axes.none", 2010, dict(nv=1, naux=1, m=2, nx=(2,)), xnames=["t", "Height above sea-level"])
    return out
