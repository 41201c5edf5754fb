"""C21 - global attributes reach the header or the comments."""
import numpy as np

from props import common, ncd, ncconv

NUMERIC = True
NAPPY_MODULES = ncd.NAPPY_MODULES
BOUNDS = ("one to six global attributes in several orders, text values of 1-6 symbolic printable characters (also line "
          "feeds and carriage returns), numbers symbolic or of numpy types; up to three variables with up to three "
          "attributes each, auxiliary and singleton variables")
ASSUMPTIONS = [
    "volume numbers, format index and header length of an earlier file are computed anew and are not taken from "
    "attributes", "blank lines of attribute texts need not be kept",
    "array-valued attributes and attributes of coordinate variables are not covered"]

HEADER = {"source": "SNAME", "title": "MNAME"}
INST = " (ONAME from NASA Ames file); %s (ORG from NASA Ames file)."


def texts(sx, name, n, breaks):
    """a text of n characters, possibly with a line break inside"""
    if not breaks:
        return sx.str(name, n), None
    a, b = sx.str(name + "a", n, mask=sx.WORD, first=sx.ALPHA), sx.str(name + "b", n, mask=sx.WORD, first=sx.ALPHA)
    return a + breaks + b, (a, b)


def lines_of(x):
    return [l for l in x.replace("\r\n", "\n").replace("\r", "\n").split("\n") if l.strip()]


def make(sx, i, key, kind):
    """(value, expectation) of one attribute"""
    p = "g%d" % i
    if kind == "same":
        return "text", ["text"]
    if kind == "text":
        v = sx.str(p, 4)
        return v, [v]
    if kind[:4] == "long" and kind[4:].isdigit():
        v = common.long_text(sx, p, int(kind[4:]))
        return v, [v]
    if kind == "longlines":
        v = [common.PROSE + "end", common.long_text(sx, p, 150), 3 * common.PROSE + "end"]
        return "\n".join(v), v
    if kind == "many":
        v = ["line %d" % k for k in range(14)]
        v[9] = sx.str(p, 2)
        return "\n".join(v), v
    if kind == "longna":
        a, b = common.long_text(sx, p + "o", 83).replace("(", "[").replace(")", "]"), "Rutherford Appleton Laboratory, " * 3 + "UK"
        return a + INST % b, (a, b)
    if kind == "one":
        v = sx.str(p, 1)
        return v, [v]
    if kind == "lines":
        a, b = sx.str(p + "a", 2), sx.str(p + "b", 3)
        return a + "\n" + b, [a, b]
    if kind == "crlf":
        a, b = sx.str(p + "a", 2), sx.str(p + "b", 2)
        return a + "\r\n" + b, [a, b]
    if kind == "cr":
        a, b = sx.str(p + "a", 2), sx.str(p + "b", 2)
        return a + "\r" + b, [a, b]
    if kind == "blank":
        a, b = sx.str(p + "a", 2), sx.str(p + "b", 2)
        return a + "\n\n " + b, [a, b]
    if kind == "int":
        v = sx.int(p, -1000, 1000)
        return v, ["%d" % v]
    if kind == "float":
        return 2.5, ["2.5"]
    if kind == "npint":
        return np.int32(17), ["17"]
    if kind == "npfloat":
        return np.float64(0.25), ["0.25"]
    if kind == "npint16":
        return np.int16(3), ["3"]
    if kind == "na":        # institution of a NASA Ames file
        a, b = sx.str(p + "o", 3, mask=sx.NOBRACKETS), sx.str(p + "r", 4, mask=sx.NOBRACKETS)
        return a + INST % b, (a, b)
    if kind == "comment":   # comment of a NASA Ames file
        s = [sx.str("%ss%d" % (p, k), 2 + k) for k in range(2)]
        n = [sx.str("%sn%d" % (p, k), 3 - k) for k in range(2)]
        return "\n".join(["==== Special Comments follow ===="] + s + ["==== Special Comments end ====",
                                                                       "==== Normal Comments follow ===="] + n +
                         ["==== Normal Comments end ===="]), (s, n)
    if kind == "date":
        v = [sx.int("%s.%d" % (p, k), 1, 28) for k in range(3)]
        return v, v
    if kind == "npdate":
        return np.array([2001, 2, 3]), [2001, 2, 3]
    if kind == "datetext":
        return "2001-02-03", ["2001-02-03"]
    raise ValueError(kind)


def in_order(sx, want, got, what):
    """want is a subsequence of got (greedy; every match is a definite equality)"""
    k = 0
    for w in want:
        found = False
        while k < len(got) and not found:
            g = got[k].strip()
            k += 1
            w1 = w.strip()
            if len(g) == len(w1) and bool(sx.eq(g, w1)):
                found = True
        sx.check(found, "%s: line %s kept in order" % (what, k))


def has_line(sx, lines, w):
    w = w.strip()
    return sx.any([sx.eq(l.strip(), w) for l in lines if len(l.strip()) == len(w)])


def attributes(sx, atts, variables="plain"):
    nappy = sx.nappy("nappy.nc_interface.xarray_to_na")
    axes = [["t", 2, {"units": "s"}], ["z", 2, {}]]
    specs = {
        "plain": [["v", [0], {"units": "K"}]],
        "bare": [["v", [0], {}]],
        "single": [["v", [0], {}], ["s", [], {"long_name": "scalar", "units": "m"}]],
        "mixed": [["v", [0, 1], {"units": "K", "attrs": {"cell": 1, "note": "", "two": 2.5}}],
                  ["a", [0], {"long_name": "aux", "attrs": {"cell": "point", "num": np.int16(4)}}],
                  ["s", [], {"attrs": {"note": "single"}}],
                  ["w", [0, 1], {"attrs": {"comment": "other"}}]],
        "names": [["v", [0], {"long_name": "Long\nname", "units": "K"}], ["s", [], {"long_name": "a\nb"}]],
    }[variables]
    specs = [[n, d, dict(o, attrs=dict(o.get("attrs", {})))] for n, d, o in specs]
    if variables == "mixed":
        specs[0][2]["attrs"]["note"] = sx.str("vn", 3)
        specs[0][2]["attrs"]["cell"] = sx.int("vc", 0, 99)
    if variables == "names":
        axes[0][2]["long_name"] = "Time\r\nof day"
    ax, vs = ncd.build(sx, axes, specs)
    glob, want = {}, {}
    for i, (key, kind) in enumerate(atts):
        glob[key], want[key] = make(sx, i, key, kind)
    order = sx.choose("order", 0, 1) if len(glob) > 1 else 0
    items = list(glob.items())
    if order:
        items.reverse()
    c = nappy.XarrayToNA([v.da for v in vs], global_attributes=items)
    outs = c.convert()
    for d, ids in outs:
        sx.observe([d["SCOM"], d["NCOM"][:1], [d.get(k) for k in ("ONAME", "ORG", "SNAME", "MNAME")], d["VNAME"]])
        content(sx, d, want, dict(atts))
    # every variable attribute
    scom = [l for d, ids in outs for l in d["SCOM"]]
    for v in vs:
        heads = [i for i, l in enumerate(scom) if l.startswith("  Variable %s: " % v.name) or
                 (not v.shape and l.startswith("  Variable ") and len(lines_of(ncd.best_name(v))) == 1 and
                  l.endswith(": " + ncd.best_name(v)))]
        for key, value in v.da.attrs.items():
            if variables == "names" and key in ("long_name", "units"):
                continue
            sx.check(len(heads) == 1, "attributes of %s listed once" % v.name)
            own = []
            for l in scom[heads[0] + 1:]:
                if not l.startswith("    "):
                    break
                own.append(l)
            sx.check(has_line(sx, own, "%s = %s" % (key, value)), "attribute %s of %s in the comments" % (key, v.name))


def content(sx, d, want, kinds):
    for key in ("ONAME", "ORG", "SNAME", "MNAME", "VNAME", "ANAME", "XNAME", "SCOM", "NCOM"):
        for l in ([d[key]] if key in ("ONAME", "ORG", "SNAME", "MNAME") and key in d else d.get(key, [])):
            sx.check("\n" not in l and "\r" not in l, "no line break in %s" % key)
    sx.check(d["NSCOML"] == len(d["SCOM"]) and d["NNCOML"] == len(d["NCOM"]), "number of comment lines")
    sx.check(d["IVOL"] == 1 and d["NVOL"] == 1 and d["FFI"] // 1000 == d["NIV"], "structure of the header")
    for key in ("SNAME", "MNAME", "ONAME", "ORG"):
        src = {"SNAME": "source", "MNAME": "title", "ONAME": "institution", "ORG": "institution"}[key]
        if src not in want:
            sx.check(key not in d or d[key] is None, "%s has no value of another attribute" % key)
    for key, w in want.items():
        if key in ("source", "title"):
            got = d[HEADER[key]]
            pieces(sx, got, w, key)
        elif key == "institution":
            if kinds[key] in ("na", "longna"):
                sx.check_eq(d["ONAME"].strip(), w[0].strip(), "originator")
                sx.check_eq(d["ORG"].strip(), w[1].strip(), "organisation")
            else:
                pieces(sx, d["ONAME"], w, "originator")
                pieces(sx, d["ORG"], w, "organisation")
        elif key == "comment":
            if kinds[key] == "comment":
                in_order(sx, w[0], d["SCOM"], "special comments")
                in_order(sx, w[1], d["NCOM"], "normal comments")
            else:
                in_order(sx, w, d["NCOM"], "comment")
        elif key == "first_valid_date_of_data" and kinds[key] != "datetext":
            sx.check_eq([int(x) for x in d["DATE"]] if kinds[key] == "npdate" else list(d["DATE"]), w, "date of the data")
        elif key == "first_valid_date_of_data":
            sx.check(len(d["DATE"]) == 3 and sx.neg(isinstance(d["DATE"], str)), "date of the data is three numbers")
        elif key in ("file_format_index", "no_of_nasa_ames_header_lines", "total_files_in_set", "file_number_in_set"):
            pass
        elif key == "history":
            in_history(sx, w, d["NCOM"])
        else:
            first = "%s:   %s" % (key, w[0])
            sx.check(has_line(sx, d["NCOM"], first), "attribute %s in the comments" % key)
            for l in w[1:]:
                sx.check(has_line(sx, d["NCOM"], l), "further line of attribute %s in the comments" % key)


def pieces(sx, got, parts, what):
    """header line made of the lines of a text"""
    if len(parts) == 1:
        sx.check_eq(got, parts[0], what)
    else:
        sx.check(got.startswith(parts[0]) and got.endswith(parts[-1]) and len(got) <= sum(len(p) for p in parts) + 6, what)


def in_history(sx, w, ncom):
    for l in w:
        sx.check(has_line(sx, ncom, l), "history line in the comments")


def cases(tier):
    L = [
        ("header", [("source", "text"), ("title", "text"), ("institution", "text")]),
        ("header.lines", [("source", "lines"), ("title", "crlf"), ("institution", "lines")]),
        ("header.cr", [("source", "cr"), ("title", "lines"), ("institution", "cr")]),
        ("institution.na", [("institution", "na"), ("title", "one")]),
        ("comment", [("comment", "text"), ("title", "text")]),
        ("comment.na", [("comment", "comment"), ("Conventions", "text")]),
        ("comment.lines", [("comment", "lines"), ("history", "text")]),
        ("comment.number", [("comment", "int"), ("source", "text")]),
        ("history", [("history", "lines"), ("note", "text")]),
        ("other", [("note", "text"), ("Conventions", "text"), ("references", "text"), ("x", "one")]),
        ("other.lines", [("note", "lines"), ("more", "crlf"), ("blank", "blank")]),
        ("other.cr", [("note", "cr")]),
        ("numbers", [("a", "int"), ("b", "float"), ("c", "npint"), ("d", "npfloat"), ("e", "npint16")]),
        ("previous", [("file_format_index", "npint"), ("file_number_in_set", "npint16"), ("note", "text")]),
        ("previous.int", [("file_format_index", "int"), ("total_files_in_set", "int"),
                          ("no_of_nasa_ames_header_lines", "int"), ("file_number_in_set", "int")]),
        ("date", [("first_valid_date_of_data", "date"), ("note", "text")]),
        ("date.np", [("first_valid_date_of_data", "npdate")]),
        ("date.text", [("first_valid_date_of_data", "datetext")]),
        ("institution.number", [("institution", "int")]),
        ("long", [("source", "long90"), ("title", "long140"), ("institution", "long81")]),
        ("long.na", [("institution", "longna"), ("note", "long300")]),
        ("long.other", [("comment", "longlines"), ("a_rather_long_attribute_name.with-more+parts", "long80"),
                        ("history", "many"), ("note", "many")]),
        ("near", [(k, "one") for k in ("sources", "subtitle", "institution_id", "comments", "History", "Title")]),
        ("near.more", [(k, "one") for k in ("xsource", "comment2", "the history", "date", "file_format", "total_files",
                                            "SOURCE", "", "a b: c")]),
        ("near.own", [(k, "one") for k in ("SNAME", "ORG", "NCOM", "FFI", "V", "DATE")]),
        ("repeated", [("source", "text"), ("title", "same"), ("note", "same"), ("other", "same")]),
        ("ten", [("a%d" % k, "one") for k in range(12)]),
        ("all", [("source", "text"), ("comment", "comment"), ("institution", "na"), ("history", "lines"),
                 ("note", "lines"), ("n", "npint")]),
    ]
    out = []
    for name, atts in L:
        out.append({"name": name, "fn": "attributes", "params": {"atts": atts}})
    for v in ("bare", "single", "mixed", "names"):
        for name, atts in (("comment.na", [("comment", "comment")]), ("plain", [("note", "text")]), ("none", [])):
            if v == "bare" and name == "none":
                continue
            out.append({"name": "%s.%s" % (v, name), "fn": "attributes", "params": {"atts": atts, "variables": v}})
    return out
