"""C32 - results do not depend on what was done before."""
from props import nad, refna, shapes, common, C02, C30, ncd, ncio, naconv

NUMERIC = True
NAPPY_MODULES = ncd.NAPPY_MODULES + ["nappy.script.na2nc", "nappy.script.nc2na", "nappy.script.nc2csv"]
BOUNDS = ("histories of one or two operations before the operation looked at, drawn from reading, writing, CSV, comparison, "
          "conversion in either direction through every entry point, queries, list and option handling and failing "
          "operations, each on its own contents (every value and most texts symbolic) and with its own options, under "
          "the same file names")
ASSUMPTIONS = ["the reference is the same operation on the same inputs in the state right after import, with no files left behind",
               "the NetCDF library is replaced by an in-memory store (symbolic runs and replays alike)"]


class Prefixed:
    """driver whose input names carry a prefix"""

    def __init__(self, sx, p):
        self._sx, self._p = sx, p

    def __getattr__(self, name):
        a = getattr(self._sx, name)
        if name in ("float", "int", "bool", "str", "choose", "pick", "grid"):
            return lambda n, *x, **k: a(self._p + n, *x, **k)
        return a


def plain(x):
    """a result as nested lists"""
    if isinstance(x, dict):
        return [[k, plain(x[k])] for k in sorted(x, key=str)]
    if isinstance(x, (list, tuple)):
        return [plain(y) for y in x]
    if hasattr(x, "dims"):
        return [str(x.name), list(x.dims), plain(dict(x.attrs)), plain(dict(x.encoding)), naconv.tolist(x),
                [[n, plain(dict(x.coords[n].attrs)), naconv.tolist(x.coords[n])] for n in x.dims if n in x.coords]]
    if hasattr(x, "tolist"):
        return plain(x.tolist())
    return x


def outcome(fn):
    try:
        return ["result", plain(fn())]
    except (Exception, SystemExit) as e:
        return ["refused", type(e).__name__]


def written(sx, names):
    return [[n, sx.text(n)] for n in names]


# -- operations: make(sx, options) -> function to run, any number of times ----------------
def shape(tag):
    for s in shapes.QUICK:
        if s[0] == tag:
            return s[1], dict(s[2], strlen=(2, 1))
    raise KeyError(tag)


def small(sx, tag, **text):
    ffi, kw = shape(tag)
    d = nad.build(sx, ffi, **dict(kw, nobrackets=True))
    d.update(text)
    d["NSCOML"], d["NNCOML"] = len(d["SCOM"]), len(d["NCOM"])
    return d


def op_read(sx, tag="1001.a", ignore=0):
    d = small(sx, tag)
    n, lines = C02.build(sx, d, "%s")
    text = "".join([sx.str("ign%d" % i, 2) + "\n" for i in range(ignore)] + [l + "\n" for l in lines])

    def run():
        nappy = sx.nappy()
        sx.put("in.na", text)
        f = nappy.openNAFile("in.na", ignore_header_lines=ignore)
        f.readData()
        out = [common.contents(f), list(f.ignored_header_lines), f.getVariables(), f.getAuxVariables(),
               f.getIndependentVariables(), f.getVolumes(), f.getOrg(), f.getSource(), f.getMission(), f.getNormalComments(),
               f.getSpecialComments(), nappy.readFFI("in.na", ignore)]
        f.close()
        return out
    return run


def op_write(sx, tag="1001.a", noffi=False, **opts):
    d = small(sx, tag)
    if noffi:
        del d["FFI"]

    def run():
        nappy = sx.nappy()
        f = nappy.openNAFile("out.na", "w", na_dict=nad.clone(d))
        f.write(**opts)
        f.close()
        return written(sx, ["out.na"])
    return run


def op_csv(sx, tag="2010.b", **opts):
    d = small(sx, tag)
    n, lines = C02.build(sx, d, "%s")

    def run():
        sx.put("in.na", "".join([l + "\n" for l in lines]))
        sx.nappy().convertNAToCSV("in.na", **opts)
        return written(sx, ["in.csv"])
    return run


def op_compare(sx, same=True, **opts):
    word, x, y = sx.str("word", 2), sx.float("x"), sx.float("y")
    text = ["5 1001\n%s\n" % word, "%s %s\n" % (x, y)]

    def run():
        m = sx.nappy("nappy.utils.compare_na")
        sx.put("l.na", "".join(text))
        sx.put("r.na", "".join(text if same else text[:1] + ["%s 7\n" % y]))
        return m.compareNA("l.na", "r.na", **opts)
    return run


FFIKW = {"1001": (1001, dict(nv=2, m=2)), "1010": (1010, dict(nv=1, naux=1, m=2)), "1020": (1020, dict(nv=1, naux=1, m=2, nvpm=2)),
         "2010": (2010, dict(nv=1, naux=1, m=2, nx=(2,), nxdef=(1,)))}


def op_na2nc(sx, kind="1001", how="nc", time=None, globs=False, select=False, rename=False, mode="w", **opts):
    ffi, kw = FFIKW[kind]
    d = naconv.contents(sx, ffi, kw, xnames=[time, "Height (m)"] if time else None)
    if globs:
        opts["global_attributes"] = [("Campaign", sx.str("glob", 2)), ("comment", sx.str("comm", 2))]
    if select:
        opts["variables"] = [d["VNAME"][-1]]
    if rename:
        opts["rename_variables"] = {"main_0": "other"}

    def run():
        nappy = sx.nappy()
        naconv.put(sx, nad.clone(d))
        o = dict((k, nad.clone(v)) for k, v in opts.items())
        if how == "xr":
            prim, aux, glob = nappy.readXarrayObjectsFromNA("in.na")
            return [prim, aux, attributes(glob)]
        if how == "var":
            return [nappy.getXarrayVariableFromNA("in.na", 0), nappy.getXarrayVariableFromNA("in.na", d["VNAME"][0])]
        with ncio.Store() as st:
            if how == "dict":
                nappy.writeNADictToNC(nad.clone(d), "out.nc")
            else:
                nappy.convertNAToNC("in.na", "out.nc", mode=mode, **o)
        ds = st.files["out.nc"]
        return [[p, m] for p, m, x in st.written], [ds[n] for n in ds.data_vars], attributes(ds.attrs)
    return run


def attributes(a):
    """all but the one with the time of the conversion in it"""
    a = dict(a)
    a.pop("history", None)
    return a


AXES = [["t", 3, {"kind": "uniform", "units": "s"}], ["z", 2, {"kind": "uniform"}], ["q", 2, {}]]


def data_set(sx, kind):
    import xarray as xr
    variables = ncd.build(sx, AXES, C30.SETS[kind])[1]
    ds = xr.Dataset(dict((v.name, v.da) for v in variables))
    for v in variables:
        ds[v.name].encoding.update(v.da.encoding)
    ds.attrs["title"] = sx.str("title", 3)
    ds.attrs["institution"] = "Inst"
    ds.attrs["comment"] = sx.str("comment", 2, mask=sx.WORD, first=sx.WORD, last=sx.WORD)
    return ds


def op_nc2na(sx, kind="one", how="na", over=False, numbers=False, **opts):
    ds = data_set(sx, kind)
    if over:
        opts["na_items_to_override"] = {"ONAME": sx.str("oname", 2), "NCOM": [sx.str("ncom", 2)], "DATE": [2001, 2, 3]}
    csv = how.endswith("csv")

    def run():
        nappy = sx.nappy()
        o = dict((k, nad.clone(v)) for k, v in opts.items())
        if how.startswith("objects"):
            das = [ds[n] for n in C30.selected(ds)]
            f = nappy.convertXarrayObjectsToCSV if csv else nappy.convertXarrayObjectsToNA
            names = f(das, list(ds.attrs.items()), "in.csv" if csv else "in.na", **o)
        else:
            with ncio.Store({"in.nc": ds}):
                f = nappy.convertNCToCSV if csv else nappy.convertNCToNA
                names = f("in.nc", **o)
        return written(sx, names) if not o.get("only_return_file_names") else names
    return run


def op_lists(sx):
    vals = [sx.float("v%d" % i) for i in range(4)]
    text = sx.str("a", 2, mask=sx.WORD, first=sx.WORD, last=sx.WORD) + "," + sx.str("b", 1, mask=sx.WORD, first=sx.WORD, last=sx.WORD)

    def run():
        m = sx.nappy("nappy.utils.list_manipulator")
        c = sx.nappy("nappy.utils.common_utils")
        got = m.recursiveListPopulator([], list(vals), [2, 2])
        return [got, m.recursiveListWriter(got, [2, 2]), c.makeDictFromCommaSepString(text), c.makeListFromCommaSepString(text)]
    return run


def op_command(sx, which="na2nc", args=()):
    args = list(args)

    def run():
        sx.put("in.na", "x\n")
        sx.put("in.nc", "x\n")
        m = sx.nappy("nappy.script." + which)
        return m.parseArgs(list(args))
    return run


def op_bad(sx, how="short"):
    """operations which fail"""
    d = naconv.contents(sx, *FFIKW["1001"])
    n, lines = C02.build(sx, d, "%s")
    ds = data_set(sx, "2d") if how == "ffi" else None

    def run():
        nappy = sx.nappy()
        if how == "short":
            sx.put("in.na", "".join([l + "\n" for l in lines[:len(lines) - 1] + [lines[-1].split()[0]]]))
            f = nappy.openNAFile("in.na")
            f.readData()
        elif how == "header":
            sx.put("in.na", "".join([l + "\n" for l in lines[:9]]))
            nappy.openNAFile("in.na")
        elif how == "write":
            e = nad.clone(d)
            e["V"] = e["V"][:1]
            f = nappy.openNAFile("out.na", "w", na_dict=e)
            f.write(delimiter=",", float_format="%.1f", annotation=True)
        elif how == "na2nc":
            naconv.put(sx, d)
            with ncio.Store():
                nappy.convertNAToNC("in.na", "out.nc", variables=["none of these"], time_units="days since 1900-01-01")
        elif how == "ffi":
            with ncio.Store({"in.nc": ds}):
                nappy.convertNCToNA("in.nc", requested_ffi=3010, na_items_to_override={"ONAME": "never"})
    return run


OPS = {
    "read.1001": ("read", dict(tag="1001.a")), "read.1010": ("read", dict(tag="1010.b")), "read.1020": ("read", dict(tag="1020.a")),
    "read.2010": ("read", dict(tag="2010.b")), "read.2110": ("read", dict(tag="2110.b")), "read.2160": ("read", dict(tag="2160.b")),
    "read.2310": ("read", dict(tag="2310.a")), "read.ignore": ("read", dict(tag="1001.min", ignore=2)),
    "write.1001": ("write", dict(tag="1001.a")), "write.ann": ("write", dict(tag="2010.b", annotation=True, delimiter=",")),
    "write.data": ("write", dict(tag="1010.b", no_header=True, float_format="%.2f")),
    "write.2110": ("write", dict(tag="2110.b")), "write.2310": ("write", dict(tag="2310.a")), "write.2160": ("write", dict(tag="2160.b")),
    "write.noffi": ("write", dict(tag="1010.b", noffi=True)), "write.noffi2": ("write", dict(tag="2010.b", noffi=True)),
    "csv.2010": ("csv", dict(tag="2010.b")), "csv.opts": ("csv", dict(tag="1001.a", annotation=True, no_header=True)),
    "compare.same": ("compare", dict()), "compare.other": ("compare", dict(same=False, approx_equal=True, header=False)),
    "nc.1001": ("na2nc", dict(kind="1001")), "nc.opts": ("na2nc", dict(kind="1010", globs=True, rename=True)),
    "nc.select": ("na2nc", dict(kind="1001", select=True, mode="a")),
    "nc.2010": ("na2nc", dict(kind="2010")), "nc.time": ("na2nc", dict(kind="1001", time="Time (s)", time_units="days since 2000-01-01")),
    "nc.notime": ("na2nc", dict(kind="1001", time="Time (s)", time_warning=False)),
    "xr.1001": ("na2nc", dict(kind="1001", how="xr")), "xr.1020": ("na2nc", dict(kind="1020", how="xr")),
    "xr.var": ("na2nc", dict(kind="1010", how="var")), "xr.dict": ("na2nc", dict(kind="1001", how="dict")),
    "na.one": ("nc2na", dict(kind="one")), "na.over": ("nc2na", dict(kind="one", over=True)),
    "na.files": ("nc2na", dict(kind="three.files", annotation=True)), "na.2d": ("nc2na", dict(kind="2d", requested_ffi=2110)),
    "na.single": ("nc2na", dict(kind="single", float_format="%.3f", delimiter=";")),
    "na.limit": ("nc2na", dict(kind="one", size_limit=2)), "na.bounds": ("nc2na", dict(kind="bounds", exclude_vars=["v1"])),
    "na.names": ("nc2na", dict(kind="three.files", only_return_file_names=True)),
    "na.scal": ("nc2na", dict(kind="scal")), "na.csv": ("nc2na", dict(kind="one", how="csv", no_header=True)),
    "na.objects": ("nc2na", dict(kind="three.files", how="objects")), "na.objcsv": ("nc2na", dict(kind="single", how="objects.csv", over=True)),
    "lists": ("lists", {}),
    "cmd.na2nc": ("command", dict(which="na2nc", args=["-i", "in.na", "-g", "a,b", "-r", "c,d"])),
    "cmd.na2nc.plain": ("command", dict(which="na2nc", args=["-i", "in.na"])),
    "cmd.nc2na": ("command", dict(which="nc2na", args=["-i", "in.nc", "-e", "a,b", "--overwrite-metadata", "c,d", "--no-header"])),
    "cmd.nc2na.plain": ("command", dict(which="nc2na", args=["-i", "in.nc"])),
    "cmd.nc2csv": ("command", dict(which="nc2csv", args=["-i", "in.nc", "-v", "a", "--annotated"])),
    "cmd.nc2csv.plain": ("command", dict(which="nc2csv", args=["-i", "in.nc"])),
    "bad.short": ("bad", dict(how="short")), "bad.header": ("bad", dict(how="header")), "bad.write": ("bad", dict(how="write")),
    "bad.na2nc": ("bad", dict(how="na2nc")), "bad.ffi": ("bad", dict(how="ffi")),
}


def history(sx, before, then):
    ops = []
    for i, name in enumerate(before + [then]):
        fn, kw = OPS[name]
        ops.append(globals()["op_" + fn](Prefixed(sx, "%s." % "abc"[i]), **kw))
    for f in ops[:-1]:
        outcome(f)
    got = outcome(ops[-1])
    again = outcome(ops[-1])
    sx.fresh()
    want = outcome(ops[-1])
    sx.observe(want)
    sx.check_eq(got[0], want[0], "accepted or refused as without the history")
    sx.check_eq(got, want, "same as without the history")
    sx.check_eq(again, want, "same when repeated")


def cases(tier):
    out = []
    names = list(OPS)
    for i, n in enumerate(names):
        for m in names:
            out.append([[m], n])
        for s in ((3, 19) if tier == "quick" else range(1, len(names), 2)):
            out.append([[names[(i + s) % len(names)], names[(i + 3 * s + 1) % len(names)]], n])
    return [{"name": "+".join(b) + ">" + n, "fn": "history", "params": {"before": b, "then": n}} for b, n in out]
