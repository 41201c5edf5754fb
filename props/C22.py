"""C22 - header overrides apply exactly where asked."""
import os

from props import ncd, refna, common

NUMERIC = True
NAPPY_MODULES = ncd.NAPPY_MODULES
BOUNDS = ("every permitted item alone and several combinations and orders of items, texts of 1-5 symbolic characters, "
          "dates as symbolic numbers or text, one, two or twelve comment lines as list or text, one to three output files of "
          "formats 1001, 1010 and 2010, also split by a row limit, no comments, comments from attributes or both; default, none or own local "
          "attributes; a second conversion and a second write afterwards")
ASSUMPTIONS = ["lists of names have as many names as the contents have variables",
               "the comment rule is the delivered one (insert)"]

TEXT = ("ONAME", "ORG", "SNAME", "MNAME")
WRAP = {"SCOM": ("==== Special Comments follow ====", "==== Special Comments end ===="),
        "NCOM": ("==== Normal Comments follow ====", "==== Normal Comments end ====")}
DATASETS = {
    "1001": ([["t", 2, {"units": "s"}]], [["v", [0], {}], ["w", [0], {}]]),
    "1001.bare": ([["t", 2, {}]], [["v", [0], {}]]),
    "1010": ([["t", 2, {}], ["z", 2, {}]], [["v", [0, 1], {}], ["a", [0], {"units": "K"}]]),
    "two": ([["t", 2, {}], ["z", 3, {}]], [["v", [0], {"units": "K"}], ["p", [1], {}]]),
    "three": ([["t", 2, {}], ["z", 3, {}], ["y", 2, {}]], [["v", [0, 1], {}], ["p", [1], {}], ["q", [2], {}]]),
}


def value(sx, key, kind, nv):
    """(value given, value expected)"""
    if key in TEXT:
        if kind == "empty":
            return "", ""
        if kind == "long":
            v = common.long_text(sx, key, 150)
            return v, v
        v = sx.str(key, 3 if kind == "short" else 5)
        return v, v
    if key in ("DATE", "RDATE"):
        d = [sx.int(key + "y", 1000, 9999), sx.int(key + "m", 1, 12), sx.int(key + "d", 1, 28)]
        if kind == "list":
            return d, d
        if kind == "tuple":
            return tuple(d), d
        return "%d %d %d" % tuple(d), d
    if key in ("VNAME", "ANAME"):
        names = [sx.str("%s%d" % (key, i), 2 + i, mask=sx.WORD) for i in range(nv)]
        return (list(names) if kind == "list" else " ".join(names)), names
    if key in ("SCOM", "NCOM"):
        if kind == "many":
            lines = ["line %d" % i for i in range(12)]
            lines[7] = common.long_text(sx, key, 140)
            return list(lines), lines
        n = 1 if kind == "one" else 2
        lines = [sx.str("%s%d" % (key, i), 4 + i) for i in range(n)]
        return ("\n".join(lines) if kind == "text" else list(lines)), lines
    # not permitted
    return {"FFI": 2010, "NV": 7, "NLHEAD": 3, "VMISS": [1.0], "XNAME": "other", "DX": [3], "IVOL": 9,
            "NONSENSE": "x", "X": [1, 2]}[key], None


def parsed(sx, nappy, names):
    return [common.contents(common.read(nappy, f)) for f in names]


def strip(l):
    return [x.strip() for x in l]


def expect(sx, plain, want, got, what):
    """the headers with overrides, given those without"""
    for key in plain:
        w = plain[key]
        g = got[key]
        if key == "NLHEAD":
            w = w + sum(len(want[k]) for k in ("SCOM", "NCOM") if want.get(k))
        elif key in ("NSCOML", "NNCOML"):
            w = w + len(want.get(key[1:-1]) or [])
        elif key in ("SCOM", "NCOM"):
            comments(sx, key, strip(w), strip(g), want.get(key) or [], want, plain, "%s: %s" % (what, key))
            continue
        elif want.get(key) is not None:
            w = want[key]
        if key in ("VNAME", "ANAME", "XNAME"):
            g, w = strip(g), strip(w)
        elif key in TEXT:
            g, w = g.strip(), w.strip()
        elif isinstance(w, (list, tuple)) and key in ("DATE", "RDATE"):
            g, w = list(g), list(w)
        sx.check_eq(g, w, "%s: %s" % (what, key))


def comments(sx, key, plain, got, new, want, contents, what):
    # column headings follow the names of the variables
    if key == "NCOM" and contents["FFI"] == 1001:
        names = want.get("VNAME") or contents["VNAME"]
        sx.check_eq(got[-1:], [",".join([contents["XNAME"][0].strip()] + strip(names))], what + ": column headings")
        plain, got = plain[:-1], got[:-1]
    new = strip(new)
    start = 1 if plain and plain[0] == WRAP[key][0] else 0
    sx.check_eq(got, plain[:start] + new + plain[start:], what + ": new lines first")


def overrides(sx, data, items, atts="plain", local=None, again=False, limit=None):
    saved = os.environ.pop("NAPPY_LOCAL_ATTRIBUTES", None)
    if local:
        os.environ["NAPPY_LOCAL_ATTRIBUTES"] = os.path.join(os.path.dirname(os.path.abspath(__file__)), "data", local)
    try:
        run(sx, data, items, atts, local, again, limit)
    finally:
        os.environ.pop("NAPPY_LOCAL_ATTRIBUTES", None)
        if saved is not None:
            os.environ["NAPPY_LOCAL_ATTRIBUTES"] = saved


DEFAULT_ORG = "Data held at British Atmospheric Data Centre (BADC), Rutherford Appleton Laboratory, UK."
LOCAL = {None: {"ORG": DEFAULT_ORG}, "none.ini": {}, "own.ini": {"MNAME": "Local mission", "ONAME": "Local name"},
         "bad.ini": {"SNAME": "Local source"}}


def run(sx, data, items, atts, local, again, limit):
    nappy = sx.nappy()
    import nappy.utils.parse_config as pc
    pc.attributes_config_dict = None
    mod = sx.nappy("nappy.nc_interface.xarray_to_na")
    axes, specs = DATASETS[data]
    ax, vs = ncd.build(sx, axes, specs)
    glob = {"none": [], "plain": [("title", "T"), ("source", "S"), ("institution", "I")],
            "comments": [("comment", "==== Special Comments follow ====\nsc1\nsc2\n==== Special Comments end ====\n"
                          "==== Normal Comments follow ====\nnc1\n==== Normal Comments end ===="), ("title", "T")],
            }[atts]
    das = [v.da for v in vs]
    nv = 2 if data == "1001" else 1
    given, want = {}, {}
    for key, kind in items:
        given[key], want[key] = value(sx, key, kind, nv)
    copy = dict((k, list(v) if isinstance(v, list) else v) for k, v in given.items())
    nfiles = {"two": 2, "three": 3}.get(data, 1)
    # without overrides, in a configuration without local attributes
    base = mod.XarrayToNA(das, global_attributes=glob)
    config = dict((k, dict(v)) for k, v in pc.getLocalAttributesConfigDict().items())
    opts = {"size_limit": limit} if limit else {}
    if limit:
        nfiles = 2
    base.writeNAFiles("p.na", **opts)
    plain = parsed(sx, nappy, base.output_files_written)
    c = mod.XarrayToNA(das, global_attributes=glob, na_items_to_override=given)
    c.writeNAFiles("o.na", **opts)
    got = parsed(sx, nappy, c.output_files_written)
    sx.observe([g["ORG"] for g in got] + [g["NCOM"][:3] for g in got])
    sx.check(len(plain) == nfiles and len(got) == nfiles, "number of files")
    for k in range(nfiles):
        expect(sx, plain[k], want, got[k], "file %d" % k)
        for key, v in LOCAL[local].items():
            if key not in given:
                sx.check_eq(got[k][key].strip(), v, "local default of %s" % key)
            sx.check_eq(plain[k][key].strip(), v, "local default of %s without overrides" % key)
        if local == "bad.ini":
            sx.check(plain[k]["NV"] == len(plain[k]["VNAME"]), "other local items are ignored")
    # nothing leaks
    sx.check_eq(list(given), list(copy), "the given items are unchanged")
    for key in copy:
        sx.check_eq(given[key], copy[key], "the given %s is unchanged" % key)
    now = pc.getLocalAttributesConfigDict()
    sx.check(dict((k, dict(v)) for k, v in now.items()) == config, "configured defaults are unchanged")
    if again:
        last = mod.XarrayToNA(das, global_attributes=glob)
        last.writeNAFiles("l.na")
        for k, (a, b) in enumerate(zip(base.output_files_written, last.output_files_written)):
            sx.check_eq(sx.text(b), sx.text(a), "a later conversion without overrides: file %d" % k)
        c.writeNAFiles("r.na")
        for k, (a, b) in enumerate(zip(["o.na"] if nfiles == 1 else ["o_%d.na" % (i + 1) for i in range(nfiles)],
                                       c.output_files_written)):
            sx.check_eq(sx.text(b), sx.text(a), "writing again: file %d" % k)


def cases(tier):
    out = []

    def add(name, data, items, **o):
        out.append({"name": name, "fn": "overrides", "params": dict(o, data=data, items=items)})
    singles = [("ONAME", "text"), ("ORG", "text"), ("SNAME", "short"), ("MNAME", "text"), ("DATE", "text"),
               ("DATE", "list"), ("RDATE", "text"), ("RDATE", "tuple"), ("VNAME", "text"), ("VNAME", "list"),
               ("SCOM", "list"), ("SCOM", "text"), ("SCOM", "one"), ("NCOM", "list"), ("NCOM", "text"),
               ("NCOM", "one")]
    for key, kind in singles:
        add("%s.%s" % (key, kind), "1001", [(key, kind)], again=True)
    for key in ("FFI", "NV", "NLHEAD", "VMISS", "XNAME", "DX", "IVOL", "NONSENSE", "X"):
        add("refused.%s" % key, "1001.bare", [(key, None), ("SNAME", "short")])
    for key, kind in (("SCOM", "list"), ("NCOM", "list"), ("MNAME", "text"), ("SCOM", "text"), ("NCOM", "one")):
        for data in ("1001.bare", "two"):
            add("%s.%s.%s.comments" % (data, key, kind), data, [(key, kind)], atts="comments", again=data == "two")
            add("%s.%s.%s.none" % (data, key, kind), data, [(key, kind)], atts="none")
    add("none", "two", [], again=True)
    add("1010.ANAME", "1010", [("ANAME", "list"), ("VNAME", "text")])
    add("1010.ANAME.text", "1010", [("ANAME", "text")])
    add("three", "three", [("DATE", "list"), ("NCOM", "list"), ("MNAME", "text"), ("SCOM", "list")], again=True)
    add("all", "1001", [(k, "text") for k in ("DATE", "RDATE", "MNAME", "ONAME", "ORG", "SNAME", "VNAME", "SCOM",
                                               "NCOM")], again=True)
    add("all.reverse", "1001", [(k, "list") for k in ("NCOM", "SCOM", "VNAME", "SNAME", "ORG", "ONAME", "MNAME", "RDATE",
                                                      "DATE")], atts="comments")
    for key in TEXT:
        add("%s.empty" % key, "1001.bare", [(key, "empty"), ("RDATE", "list")])
        add("%s.long" % key, "two", [(key, "long")])
    for key in ("SCOM", "NCOM"):
        add("%s.many" % key, "1001", [(key, "many")], atts="comments", again=True)
        add("%s.many.plain" % key, "1001", [(key, "many")])
    for data in ("1001", "1001.bare"):
        add("split." + data, data, [("NCOM", "list"), ("SCOM", "one"), ("MNAME", "text"), ("DATE", "list")], limit=1)
        add("split.comments." + data, data, [("SCOM", "list"), ("ORG", "text")], limit=1, atts="comments")
        add("split.local." + data, data, [("NCOM", "one")], limit=1, local="own.ini")
    for local in ("none.ini", "own.ini", "bad.ini"):
        add("local.%s.none" % local, "two", [], local=local)
        add("local.%s" % local, "two", [("MNAME", "text"), ("ORG", "text")], local=local, again=True)
        add("local.%s.comments" % local, "1001", [("NCOM", "list"), ("SNAME", "text")], local=local, atts="comments")
    return out
