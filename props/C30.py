"""C30 - conversion entry points pass their options through."""
import os

from props import ncd, ncio, refna

NUMERIC = True
NAPPY_MODULES = ncd.NAPPY_MODULES
BOUNDS = ("data sets of 1-5 variables (several outputs, auxiliary, single and bounds variables) with symbolic values, "
          "converted by convertNCToNA, convertNCToCSV, convertXarrayObjectsToNA, convertXarrayObjectsToCSV and the "
          "converter classes; output name given or not, delimiter, number format, every row limit up to one more than "
          "the number of rows, annotation and header suppression on or off, requested format, overrides of symbolic "
          "text, selections and exclusions, in combinations")
ASSUMPTIONS = ["the NetCDF library is replaced by an in-memory store holding the data set (symbolic runs and replays alike)",
               "the reference is the conversion of the selected arrays (C15-C22), each output written by the NASA Ames "
               "writer itself (C01-C06) with the options given"]

AXES = [["t", 3, {"units": "s"}], ["z", 2, {}], ["q", 3, {}]]
SETS = {
    "one": [["v0", [0], {}]],
    "two": [["v0", [0], {"fill": "sym", "nan": [(1,)]}], ["v1", [0], {}]],
    "three.files": [["v0", [0], {}], ["w", [0, 1], {}], ["u", [2], {}]],
    "single": [["v0", [0], {}], ["s", [], {"units": "m"}], ["v1", [0], {}]],
    "bounds": [["v0", [0], {"attrs": {"bounds": "w"}}], ["w", [0, 1], {}], ["v1", [0], {}]],
    "2d": [["p", [0, 1], {}], ["a", [0], {}]],
    "scal": [["v0", [0], {}], ["a", [0], {"auxnum": 0}]],
}
DEFAULTS = {"delimiter": "    ", "float_format": "%.10g"}


def data_set(sx, kind):
    import xarray as xr
    ax, vs = ncd.build(sx, AXES, SETS[kind])
    ds = xr.Dataset(dict((v.name, v.da) for v in vs))
    for v in vs:
        ds[v.name].encoding.update(v.da.encoding)
    ds.attrs["title"] = sx.str("title", 3)
    ds.attrs["institution"] = "Inst"
    return ds, vs


def selected(ds, var_ids=None, exclude=()):
    """the arrays that should be converted, in the order of the data set"""
    bounds = [ds[n].attrs["bounds"] for n in ds.variables if "bounds" in ds[n].attrs]
    out = []
    for n in ds.variables:
        if (var_ids is None or n in var_ids) and n not in exclude and n not in bounds:
            out.append(n)
    return out


def reference(sx, das, attrs, overrides, ffi, limit, opts):
    """the lines of every file that should be written"""
    nappy = sx.nappy()
    mod = sx.nappy("nappy.nc_interface.xarray_to_na")
    c = mod.XarrayToNA(das, global_attributes=attrs, na_items_to_override=overrides, requested_ffi=ffi)
    c.convert()
    delim = opts.get("delimiter", DEFAULTS["delimiter"])
    # the header contents of the files are those of the converter written without options
    c.writeNAFiles("ref.na")
    texts, n = [], len(c.output_files_written)
    sx.check(n == len(c.na_dict_list), "one reference file per output")
    for k, (d, ids) in enumerate(c.na_dict_list):
        f = nappy.openNAFile(c.output_files_written[k])
        h = f.getNADict()
        d = dict(d)
        for key in ("ONAME", "ORG", "SNAME", "MNAME", "DATE", "RDATE", "SCOM", "NCOM", "NSCOML", "NNCOML", "VNAME", "XNAME", "ANAME"):
            if key in h:
                d[key] = h[key]
        # comment lines as they are in the file (reading trims them)
        lines, H, nn, ns = refna.split_lines(sx.text(c.output_files_written[k])), h["NLHEAD"], h["NNCOML"], h["NSCOML"]
        d["NCOM"] = lines[H - nn:H]
        d["SCOM"] = lines[H - nn - 1 - ns:H - nn - 1]
        rows = len(d["V"][0])
        step = limit if limit is not None and d["FFI"] == 1001 and rows > limit else rows
        parts = -(-rows // step)
        group = []
        for p in range(parts):
            e = dict(d)
            if parts > 1:
                a, b = p * step, min(rows, (p + 1) * step)
                e["X"] = d["X"][a:b]
                e["V"] = [v[a:b] for v in d["V"]]
                e["IVOL"], e["NVOL"] = p + 1, parts
            w = nappy.openNAFile("part.na", "w", na_dict=e)
            w.write(**dict(DEFAULTS, **opts))
            w.close()
            group.append(refna.split_lines(sx.text("part.na")))
        texts.append(group)
    return texts


def names(base, texts):
    stem, ext = os.path.splitext(base)
    out = []
    for k, group in enumerate(texts):
        s = stem if len(texts) == 1 else "%s_%d" % (stem, k + 1)
        out.append([s + ext] if len(group) == 1 else ["%s-%03d%s" % (s, p + 1, ext) for p in range(len(group))])
    return out


def compare(sx, got, base, texts, before):
    want = names(base, texts)
    sx.observe(list(got))
    sx.check_eq(list(got), [f for g in want for f in g], "names returned")
    for group, ts in zip(want, texts):
        for f, t in zip(group, ts):
            sx.check(sx.exists(f), "%s written" % f)
            sx.check_eq(refna.split_lines(sx.text(f)), t, "contents of %s" % f)
    new = set(sx.files()) - before - set(f for g in want for f in g)
    sx.check(not new, "no other files are written")


def options(sx, vary):
    """options (symbolic choice) and their reference"""
    kw = {}
    for v in vary:
        if v == "delimiter":
            kw[v] = sx.pick(v, ["\t", ";", "   "])
        elif v == "float_format":
            kw[v] = sx.pick(v, ["%.3f", "%s", "%12.4e"])
        elif v in ("annotation", "no_header"):
            kw[v] = sx.pick(v, [True, False])
        elif v == "size_limit":
            kw[v] = sx.choose(v, 1, 4)
        elif v == "requested_ffi":
            kw[v] = 1001
        elif v == "na_items_to_override":
            kw[v] = {"ONAME": sx.str("oname", 2), "DATE": [2001, 2, 3], "NCOM": [sx.str("ncom", 3)]}
        elif v == "var_ids":
            kw[v] = sx.pick(v, [["v0"], ["v1", "v0"], ["t", "v1"]])
        elif v == "var_ids.text":
            kw["var_ids"] = "v0"
        elif v == "exclude_vars":
            kw[v] = sx.pick(v, [["v1"], ["v0"]])
    return kw


def run(sx, kind, entry, vary, out=None):
    nappy = sx.nappy()
    ds, vs = data_set(sx, kind)
    kw = options(sx, vary)
    csv = entry.endswith("csv") or entry == "objects_csv"
    nc = entry in ("na", "csv", "class")
    opts = dict((k, kw[k]) for k in ("delimiter", "float_format", "annotation", "no_header") if k in kw)
    if csv:
        opts["delimiter"] = ","
    ids = kw.get("var_ids")
    if isinstance(ids, str):
        ids = [ids]
    sel = selected(ds, ids, kw.get("exclude_vars", ())) if nc else [v.name for v in vs]
    das = [ds[n] for n in sel]
    over = kw.get("na_items_to_override", {})
    texts = reference(sx, das, list(ds.attrs.items()), dict(over), kw.get("requested_ffi"), kw.get("size_limit"), opts)
    before = set(sx.files())
    base = out or ("in.csv" if csv else "in.na")
    if os.path.dirname(base) and not sx.symbolic:
        os.makedirs(os.path.dirname(base), exist_ok=True)
    over0 = dict((k, list(v) if isinstance(v, list) else v) for k, v in over.items())
    with ncio.Store({"in.nc": ds}):
        if entry == "na":
            got = nappy.convertNCToNA("in.nc", *([out] if out else []), **kw)
        elif entry == "csv":
            got = nappy.convertNCToCSV("in.nc", *([out] if out else []), **kw)
        elif entry == "class":
            wkw = dict((k, kw.pop(k)) for k in ("delimiter", "float_format", "annotation", "no_header", "size_limit") if k in kw)
            c = sx.nappy("nappy.nc_interface.nc_to_na").NCToNA("in.nc", **kw)
            c.writeNAFiles(base, **wkw)
            got = c.output_files_written
        elif entry == "objects":
            got = nappy.convertXarrayObjectsToNA(das, list(ds.attrs.items()), base, **kw)
        elif entry == "objects_csv":
            got = nappy.convertXarrayObjectsToCSV(das, list(ds.attrs.items()), base, **kw)
        elif entry == "objects_class":
            wkw = dict((k, kw.pop(k)) for k in ("delimiter", "float_format", "annotation", "no_header", "size_limit") if k in kw)
            c = sx.nappy("nappy.nc_interface.xarray_objs_to_na_files").XarrayObjectsToNAFile(
                das, global_attributes=list(ds.attrs.items()), **kw)
            c.writeNAFiles(base, **wkw)
            got = c.output_files_written
    compare(sx, got, base, texts, before)
    sx.check_eq(over, over0, "overrides are not modified")


def names_only(sx, kind, entry, vary, out=None):
    """names are announced, nothing is written"""
    nappy = sx.nappy()
    ds, vs = data_set(sx, kind)
    kw = options(sx, vary)
    csv = entry == "csv"
    texts = reference(sx, [ds[n] for n in selected(ds)], list(ds.attrs.items()), {}, None, None,
                      {"delimiter": ","} if csv else {})
    before = set(sx.files())
    with ncio.Store({"in.nc": ds}):
        f = nappy.convertNCToCSV if csv else nappy.convertNCToNA
        got = f("in.nc", *([out] if out else []), only_return_file_names=True, **kw)
    sx.observe(list(got))
    sx.check_eq(list(got), [x for g in names(out or ("in.csv" if csv else "in.na"), texts) for x in g], "names announced")
    sx.check(set(sx.files()) == before, "nothing is written")


def twice(sx, kind):
    """two conversions with different options do not influence each other"""
    nappy = sx.nappy()
    ds, vs = data_set(sx, kind)
    das = [ds[n] for n in selected(ds)]
    attrs = list(ds.attrs.items())
    over = {"SNAME": sx.str("sname", 2), "SCOM": ["a", "b"]}
    first = reference(sx, das, attrs, dict(over), None, None, {"delimiter": ",", "float_format": "%.2f"})
    second = reference(sx, das, attrs, {}, None, None, {})
    before = set(sx.files())
    with ncio.Store({"in.nc": ds}):
        a = nappy.convertNCToCSV("in.nc", na_items_to_override=over, float_format="%.2f")
        b = nappy.convertNCToNA("in.nc")
        compare(sx, a, "in.csv", first, before | set(b))
        compare(sx, b, "in.na", second, before | set(a))


ALL = ["delimiter", "float_format", "annotation", "no_header", "size_limit", "na_items_to_override"]


def cases(tier):
    out = []

    def add(kind, entry, vary=(), to=None, fn="run"):
        vary = list(vary)
        out.append({"name": "%s.%s.%s%s" % (entry if fn == "run" else fn + "." + entry, kind, "+".join(vary) or "plain",
                                            "." + to if to else ""), "fn": fn,
                    "params": {"kind": kind, "entry": entry, "vary": vary, "out": to}})
    for e in ("na", "csv", "class", "objects", "objects_csv", "objects_class"):
        for kind in SETS if tier != "quick" or e in ("na", "objects") else ("two", "three.files"):
            if kind == "bounds" and e.startswith("objects"):
                continue
            add(kind, e, to=None if e in ("na", "csv") else "o.na")
        add("two", e, to="d.1/b.out")
        for v in ALL + ["requested_ffi"]:
            if v == "delimiter" and e.endswith("csv"):
                continue
            add("two", e, [v])
        full = [v for v in ALL if v != "delimiter" or not e.endswith("csv")]
        if tier != "quick" or e in ("na", "csv", "objects_csv"):
            add("two", e, full, to="x.txt")
        add("three.files", e, ["size_limit", "no_header"], to="x")
        add("three.files", e, ["float_format", "annotation"])
        if tier != "quick":
            for i, v in enumerate(full):
                for w in full[:i]:
                    add("three.files" if (i % 2) else "single", e, [w, v], to="y.na")
    for e in ("na", "csv", "class"):
        add("two", e, ["var_ids"])
        add("two", e, ["var_ids.text"])
        add("two", e, ["exclude_vars"])
        add("two", e, ["exclude_vars", "size_limit", "float_format"], to="s.na")
        add("single", e, ["var_ids", "no_header"])
    for e in ("na", "csv"):
        for kind in ("one", "three.files"):
            add(kind, e, fn="names_only")
            add(kind, e, to="n.x", fn="names_only")
    for kind in ("two", "three.files") + (("single", "bounds") if tier != "quick" else ()):
        out.append({"name": "twice.%s" % kind, "fn": "twice", "params": {"kind": kind}})
    return out
