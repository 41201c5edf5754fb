"""C25 - NASA Ames to NetCDF writes every selected variable once."""
from props import ncd, ncio, naconv, nad

NUMERIC = True
NAPPY_MODULES = ncd.NAPPY_MODULES
BOUNDS = ("formats 1001, 1010, 1020, 2010, 3010 and 4010 with 1-3 primary and 0-2 auxiliary variables; every value, scale "
          "factor and missing value symbolic; up to three names of 1-2 symbolic characters each (letters of either "
          "case, digits and characters that are replaced), so that names may be equal before or after cleaning, also "
          "to an axis; up to 13 variables of equal names; selections by index, its text and full name in any order, symbolic index; rename maps of 1-2 entries")
ASSUMPTIONS = ["the NetCDF library is replaced by an in-memory store (symbolic runs and replays alike): the data set "
               "handed to it is what is checked", "names of axes are concrete and distinct",
               "a selection does not list a variable twice"]
KEYS = {False: "nasa_ames_var_number", True: "nasa_ames_aux_var_number"}


def written(sx, rec, ds, sel, asel, ids=None):
    """every selected variable once, under a name of its own, with its own values"""
    for aux, want in ((False, sel), (True, asel)):
        got = [n for n in ds.data_vars if KEYS[aux] in ds[n].attrs]
        sx.check(len(got) == len(want), "number of variables (%s)" % ("auxiliary" if aux else "primary"))
        nums = [int(ds[n].attrs[KEYS[aux]]) for n in got]
        for k in want:
            sx.check(nums.count(k) == 1, "variable %d (auxiliary: %s) written once" % (k, aux))
            v = ds[got[nums.index(k)]]
            p = "A" if aux else "V"
            sx.check_eq(naconv.tolist(v), naconv.scaled(sx, rec[p][k], rec[p + "MISS"][k], rec[p + "SCAL"][k]),
                        "values of variable %d (auxiliary: %s)" % (k, aux))
            if ids is not None:
                sx.check_eq(v.name, ids[aux][k], "name of variable %d (auxiliary: %s)" % (k, aux))
    sx.check(len(ds.data_vars) == len(sel) + len(asel), "no other variables")


def prepare(sx, ffi, kw, **names):
    d = naconv.contents(sx, ffi, dict(kw, ints=False), **names)
    naconv.put(sx, d)
    return naconv.values(sx.nappy())


def run(sx, entry="api", path="out.nc", **kw):
    nappy = sx.nappy()
    with ncio.Store() as st:
        if entry == "api":
            r = nappy.convertNAToNC("in.na", path, **kw)
        elif entry == "default":
            r = nappy.convertNAToNC("in.na", **kw)
            path = "in.nc"
        elif entry == "class":
            c = sx.nappy("nappy.nc_interface.na_to_nc").NAToNC("in.na", **kw)
            c.writeNCFile(path)
            r = path
        elif entry == "object":
            c = sx.nappy("nappy.nc_interface.na_to_nc").NAToNC(nappy.openNAFile("in.na"), **kw)
            c.convert()
            c.convert()
            c.writeNCFile(path)
            r = path
    sx.check(r == path, "name returned")
    sx.check(len(st.written) == 1 and st.written[0][:2] == (path, kw.get("mode", "w")), "written once, to the named file")
    return st.files[path]


def everything(sx, ffi, kw, entry):
    rec = prepare(sx, ffi, kw)
    ds = run(sx, entry)
    sx.observe(list(ds.data_vars))
    nv, na = rec["NV"], rec.get("NAUXV", 0)
    written(sx, rec, ds, range(nv), range(na), {False: ["main_%d" % i for i in range(nv)],
                                                True: ["aux_%d" % i for i in range(na)]})


def names(sx, ffi, kw, n, an=(), alphabet="", vnames=None, anames=None, xnames=None, rename=None):
    """any names: nothing is lost or overwritten"""
    mask = sx.mask(alphabet)
    known = [naconv.clean(naconv.split_units(x)[0]) for x in (vnames or []) + (anames or []) +
             (xnames or naconv.XNAMES[:1])] + list((rename or {}).values())
    sx.keys([k + t for k in known for t in ("", "_2", "_3")])
    vn = [sx.str("v%d" % i, k, mask=mask, first=mask, last=mask & sx.EDGE) for i, k in enumerate(n)] + (vnames or [])
    a = [sx.str("a%d" % i, k, mask=mask, first=mask & sx.EDGE, last=mask & sx.EDGE) for i, k in enumerate(an)] + (anames or [])
    rec = prepare(sx, ffi, kw, vnames=vn, anames=a, xnames=xnames)
    ds = run(sx, rename_variables=rename)
    sx.observe([list(ds.data_vars), list(ds.coords)])
    written(sx, rec, ds, range(rec["NV"]), range(rec.get("NAUXV", 0)))
    for n, vals in zip(rec["XNAME"], naconv.expanded(rec)):
        ident = naconv.clean(naconv.split_units(n)[0])
        sx.check_eq(naconv.tolist(ds.coords[ident]), vals, "axis %s kept" % n)


def select(sx, ffi, kw, sel=None, asel=None, how="name", raises=False):
    """selections by name, index or text of an index"""
    rec = prepare(sx, ffi, kw)
    args = {}
    for key, s, nm in (("variables", sel, rec["VNAME"]), ("aux_variables", asel, rec.get("ANAME", []))):
        if s is not None:
            args[key] = [nm[k] if how == "name" and k < len(nm) else "%d" % k if how == "text" else k for k in s]
    if raises:
        refused = False
        try:
            run(sx, **args)
        except Exception:
            refused = True
        sx.check(refused, "unknown variable refused")
        return
    ds = run(sx, **args)
    sx.observe(list(ds.data_vars))
    written(sx, rec, ds, list(range(rec["NV"])) if sel is None else sel,
            list(range(rec.get("NAUXV", 0))) if asel is None else asel)


def select_any(sx, ffi, kw, aux, text):
    """one selected variable, its index symbolic: refused if and only if there is none of that index"""
    rec = prepare(sx, ffi, kw)
    n = rec["NAUXV"] if aux else rec["NV"]
    k = sx.choose("k", 0, n + 2)
    if text:
        s = "%d" % k
    else:
        s = k
    try:
        ds = run(sx, **{"aux_variables" if aux else "variables": [s]})
    except Exception:
        sx.check(k >= n, "a known variable is not refused")
        return
    sx.check(k < n, "an unknown variable is refused")
    sx.observe(list(ds.data_vars))
    a, b = list(range(rec["NV"])), list(range(rec.get("NAUXV", 0)))
    written(sx, rec, ds, a if aux else [k], [k] if aux else b)


def select_name(sx, ffi, kw, aux, n, alphabet):
    """a symbolic name is selected: the variable of exactly that name, else refused"""
    mask = sx.mask(alphabet)
    nm = ["ab (K)", "b2", "2b"]
    nm = nm[:kw["naux"] if aux else kw["nv"]]
    rec = prepare(sx, ffi, kw, **{"anames" if aux else "vnames": nm})
    s = sx.str("s", n, mask=mask, first=mask & sx.EDGE, last=mask & sx.EDGE)
    hit = [i for i in range(len(nm)) if len(nm[i]) == n and bool(sx.eq(s, nm[i]))]
    try:
        ds = run(sx, **{"aux_variables" if aux else "variables": [s]})
    except Exception:
        sx.check(not hit, "a known variable is not refused")
        if n == 1:
            sx.check(sx.neg(sx.any([sx.eq(s, str(i)) for i in range(len(nm))])), "an index is not refused")
        return
    if not hit and n == 1:
        for i in range(len(nm)):
            if bool(sx.eq(s, str(i))):
                hit = [i]
    sx.check(len(hit) == 1, "an unknown name is refused")
    a, b = list(range(rec["NV"])), list(range(rec.get("NAUXV", 0)))
    written(sx, rec, ds, a if aux else hit, hit if aux else b)


def rename(sx, ffi, kw, table, ids, sel=None, symbolic=False):
    rec = prepare(sx, ffi, kw)
    table, ids = dict(table), {False: list(ids[0]), True: list(ids[1])}
    if symbolic:        # the requested name is any name
        new = sx.str("new", 2, mask=sx.ALPHA, first=sx.ALPHA)
        for k in table:
            table[k] = new if table[k] == "NEW" else table[k]
        for aux in ids:
            ids[aux] = [new if x == "NEW" else x for x in ids[aux]]
    before = dict(table)
    ds = run(sx, rename_variables=table)
    sx.check_eq([list(x) for x in table.items()], [list(x) for x in before.items()], "rename map unchanged")
    sx.observe(list(ds.data_vars))
    written(sx, rec, ds, range(rec["NV"]), range(rec.get("NAUXV", 0)), ids)


def append(sx, mode):
    """written with the requested mode: data of an earlier file are kept when appending"""
    import xarray as xr
    rec = prepare(sx, 1001, dict(nv=1, m=2))
    nappy = sx.nappy()
    old = xr.Dataset({"old": xr.DataArray([1.0, 2.0], dims=("z",), coords={"z": [0.0, 1.0]})})
    with ncio.Store({"out.nc": old}) as st:
        sx.check(nappy.convertNAToNC("in.na", "out.nc", mode=mode) == "out.nc", "name returned")
    ds = st.files["out.nc"]
    sx.check(("old" in ds.data_vars) == (mode == "a"), "earlier data kept when appending only")
    sx.check(st.written[0][1] == mode, "mode")
    written(sx, rec, st.written[0][2], [0], [])


def dictionary(sx, ffi, kw):
    """contents written without a file of their own"""
    d = naconv.contents(sx, ffi, dict(kw, ints=False))
    before = nad.clone(d)
    nappy = sx.nappy()
    with ncio.Store() as st:
        nappy.writeNADictToNC(d, "out.nc")
        nappy.writeNADictToNC(d, "add.nc", mode="a")
    sx.check([w[:2] for w in st.written] == [("out.nc", "w"), ("add.nc", "a")], "written to the named files")
    sx.check_eq(d, before, "contents unchanged")
    rec = dict(before)
    for k in ("X", "V", "A", "VMISS", "AMISS"):
        if k in rec:
            rec[k] = digits(sx, rec[k])
    for name in ("out.nc", "add.nc"):
        ds = st.files[name]
        sx.observe(list(ds.data_vars))
        written(sx, rec, ds, range(rec["NV"]), range(rec.get("NAUXV", 0)))
        for n, vals in zip(rec["XNAME"], naconv.expanded(rec)):
            sx.check_eq(naconv.tolist(ds.coords[naconv.clean(naconv.split_units(n)[0])]), vals, "axis %s" % n,
                        tol=1e-18 if not refined(rec) else 1e-13)


def refined(rec):
    """some values are calculated"""
    return rec["FFI"] == 1020 or rec.get("NXDEF") != rec.get("NX")


def digits(sx, x):
    """numbers in the digits of double precision"""
    if isinstance(x, list):
        return [digits(sx, y) for y in x]
    return sx.number("%.17g" % x)


def cases(tier):
    out = []

    def add(name, fn, **p):
        out.append({"name": name, "fn": fn, "params": p})
    for name, ffi, kw in naconv.more(tier):
        add("all." + name, "everything", ffi=ffi, kw=kw, entry="api")
    for e in ("default", "class", "object"):
        add("all.entry." + e, "everything", ffi=1010, kw=dict(nv=2, naux=1, m=2), entry=e)
    A = "aA_-"
    one, two = dict(nv=2, m=1), dict(nv=1, naux=2, m=1)
    add("names.11", "names", ffi=1001, kw=dict(nv=2, m=1), n=[1, 1], alphabet="aAb_-&")
    add("names.111", "names", ffi=1001, kw=dict(nv=3, m=1), n=[1, 1, 1], alphabet="aA1")
    add("names.22", "names", ffi=1001, kw=dict(nv=2, m=1), n=[2, 2], alphabet=A)
    add("names.12.aux", "names", ffi=1010, kw=dict(nv=1, naux=1, m=1), n=[1], an=[1], alphabet="aA_-")
    add("names.aux.2", "names", ffi=1010, kw=dict(nv=1, naux=2, m=1), n=[1], an=[1, 1], alphabet="aA")
    add("names.axis", "names", ffi=1001, kw=dict(nv=2, m=1), n=[1, 1], alphabet="xXa", xnames=["X (m)"])
    add("names.number", "names", ffi=1001, kw=dict(nv=2, m=1), n=[3], vnames=["a"], alphabet="a_23")
    add("names.number.3", "names", ffi=1001, kw=dict(nv=3, m=1), n=[3], vnames=["A", "a"], alphabet="a_23")
    add("names.long", "names", ffi=1001, kw=dict(nv=3, m=1), n=[1], vnames=["Q" * 64, "Q" * 70], alphabet="ab")
    add("names.same.2010", "names", ffi=2010, kw=dict(nv=2, naux=2, m=1, nx=(2,)), n=[], vnames=["Wind (m/s)", "wind [m/s]"],
        anames=["WIND (knots)", "lat (d)"], alphabet="a", xnames=["lat (deg)", "wind+ (m)"])
    add("names.renamed.onto", "names", ffi=1001, kw=dict(nv=2, m=1), n=[1], vnames=["Temp (K)"], alphabet="abAB",
        rename={"temp": "a"})
    add("names.renamed.axis", "names", ffi=1001, kw=dict(nv=1, m=1), n=[1], alphabet="abA", rename={"a": "north_south"},
        xnames=["North south"])
    for how in ("name", "index", "text"):
        for sel, asel in (([0], None), ([1, 0], None), (None, [1]), ([1], [0]), ([1, 0], [1, 0]), ([], []), ([], None),
                          (None, [])):
            add("select.%s.%s.%s" % (how, sel, asel), "select", ffi=2010, kw=dict(nv=2, naux=2, m=1, nx=(2,)), sel=sel,
                asel=asel, how=how)
    add("select.1020", "select", ffi=1020, kw=dict(nv=2, naux=2, m=1, nvpm=2), sel=[1], asel=[1])
    add("select.4010", "select", ffi=4010, kw=dict(nv=2, naux=1, m=1, nx=(1, 2, 1)), sel=[1], asel=[])
    add("select.unknown", "select", ffi=1010, kw=dict(nv=1, naux=1, m=1), sel=[0, 1], asel=None, how="index", raises=True)
    add("select.unknown.aux", "select", ffi=1010, kw=dict(nv=2, naux=1, m=1), sel=[0], asel=[0, 1], how="index", raises=True)
    for aux in (False, True):
        for text in (False, True):
            add("select.any.%s.%s" % (aux, text), "select_any", ffi=1010, kw=dict(nv=2, naux=2, m=1), aux=aux, text=text)
        for n in (1, 2, 6):
            add("select.name.%s.%d" % (aux, n), "select_name", ffi=1010, kw=dict(nv=3, naux=3, m=1), aux=aux, n=n,
                alphabet={1: "ab012 (K)", 2: "ab2 (K)", 6: "ab (K)"}[n])
    add("names.thirteen", "names", ffi=1001, kw=dict(nv=13, m=1, sparse=3), n=[1], vnames=["Wind (m/s)", "wind"] * 6, alphabet="ab")
    add("names.thirteen.aux", "names", ffi=1010, kw=dict(nv=6, naux=7, m=1, sparse=3), n=[1], vnames=["w"] * 5, anames=["W"] * 7,
        alphabet="wW")
    for how in ("name", "index", "text"):
        add("select.many." + how, "select", ffi=1010, kw=dict(nv=12, naux=12, m=2, sparse=5), sel=[11, 1, 10], asel=[10, 0], how=how)
    add("rename.one", "rename", ffi=1001, kw=dict(nv=2, m=2), table={"main_0": "Ozone"}, ids=[["Ozone", "main_1"], []])
    add("rename.any", "rename", ffi=1001, kw=dict(nv=2, m=1), table={"main_1": "NEW"}, ids=[["main_0", "NEW"], []],
        symbolic=True)
    add("rename.case", "rename", ffi=1010, kw=dict(nv=1, naux=1, m=1), table={"MAIN_0": "o3", "Aux_0": "Height"},
        ids=[["o3"], ["Height"]])
    add("rename.swap", "rename", ffi=1001, kw=dict(nv=2, m=2), table={"main_0": "main_1", "main_1": "main_0"},
        ids=[["main_1", "main_0"], []])
    add("rename.none", "rename", ffi=1001, kw=dict(nv=2, m=1), table={"other": "x", "main": "y", "main_00": "z"},
        ids=[["main_0", "main_1"], []])
    add("append", "append", mode="a")
    add("overwrite", "append", mode="w")
    for ffi, kw in ((1001, dict(nv=2, m=1)), (1010, dict(nv=1, naux=2, m=2)), (1020, dict(nv=1, naux=1, m=2, nvpm=2)),
                    (2010, dict(nv=1, naux=1, m=1, nx=(2,))), (3010, dict(nv=2, naux=0, m=1, nx=(3, 2), nxdef=(1, 2))),
                    (4010, dict(nv=1, naux=1, m=2, nx=(2, 1, 2)))):
        add("dictionary.%d" % ffi, "dictionary", ffi=ffi, kw=kw)
    return out
