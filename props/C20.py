"""C20 - size-limited output is a lossless partition."""
import os

from props import ncd, refna

NUMERIC = True
NAPPY_MODULES = ncd.NAPPY_MODULES
BOUNDS = ("1-6 rows (thorough: 9), every limit from 1 to one more than the number of rows (12, 24, 25 and 120 rows with few symbolic values: 13 limits), one to three variables with "
          "symbolic values and possibly missing points, symbolic or evenly spaced axis values; one to three output "
          "files of one conversion; file names with and without extension or directory; annotation, header "
          "suppression, delimiter and number format varied")
ASSUMPTIONS = ["data sections are compared as text with those of the same conversion written without a limit"]

AXES = {"free": {}, "uniform": {"kind": "uniform"}, "time": {"kind": "time"}, "sparse": {"kind": "sparse"}}


def number_line(line, delim):
    t = refna.tokens(line, delim)
    return [x for x in t if x != ""][-2:]


def split(sx, n, kind, nv, extra, name, opts):
    nappy = sx.nappy("nappy.nc_interface.xarray_to_na")
    axes = [["t", n, dict(AXES[kind], units="s")], ["z", 2, {}], ["q", 3, {}]]
    o = {"sparse": 29} if kind == "sparse" else {}
    specs = [["v%d" % i, [0], dict(o, fill="sym", nan=[(n - 1,)] if i == 0 else [])] for i in range(nv)]
    for e in extra:
        specs.append({"other": ["o", [2], {}], "2d": ["p", [0, 1], {}], "aux": ["a", [2], {}],
                      "single": ["s", [], {}]}[e])
    ax, vs = ncd.build(sx, axes, specs)
    c = nappy.XarrayToNA([v.da for v in vs], global_attributes=[("title", sx.str("title", 3)), ("note", "text")])
    dirs = os.path.dirname(name)
    if dirs and not sx.symbolic:
        os.makedirs(dirs, exist_ok=True)
    before = set(sx.files())
    # without a limit
    base, ext = os.path.splitext("whole" + os.path.splitext(name)[1])
    c.writeNAFiles(base + ext, **opts)
    whole = list(c.output_files_written)
    texts = [refna.split_lines(sx.text(f)) for f in whole]
    if n > 10:
        limit = sx.pick("limit", [1, 2, 3, 9, 10, 11, n // 2 - 1, n // 2, n // 2 + 1, n - 2, n - 1, n, n + 1])
    else:
        limit = sx.choose("limit", 1, n + 1)
    c.writeNAFiles(name, size_limit=limit, **opts)
    got = list(c.output_files_written)
    sx.observe([whole, got])
    sx.check(len(set(got)) == len(got), "each file is reported once")
    pos = 0
    delim = opts.get("delimiter", "    ")
    written = []
    for k, (d, ids) in enumerate(c.na_dict_list):
        lines = texts[k]
        rows = len(d["V"][0])
        parts = -(-rows // limit) if d["FFI"] == 1001 else 1
        mine = got[pos:pos + parts]
        pos += parts
        sx.check(len(mine) == parts, "as many files as needed for output %d" % k)
        stem, e = os.path.splitext(name)
        full = name if len(c.na_dict_list) == 1 else "%s_%d%s" % (stem, k + 1, e)
        if parts == 1:
            sx.check(mine == [full], "output within the limit is not split")
        for f in mine:
            sx.check(sx.exists(f), "%s exists" % f)
            sx.check(os.path.dirname(f) == dirs, "%s is beside the requested file" % f)
            sx.check(os.path.splitext(f)[1] == e, "%s keeps the extension" % f)
        out = [refna.split_lines(sx.text(f)) for f in mine]
        if opts.get("no_header"):
            head, body = [], lines
            bodies = out
        else:
            h = header_length(lines[0], delim)
            head, body = lines[:h], lines[h:]
            bodies = []
            for i, o in enumerate(out):
                sx.check_eq(o[:5] + o[6:h], head[:5] + head[6:], "header of file %d" % i)
                bodies.append(o[h:])
        for i, b in enumerate(bodies):
            sx.check(len(b) <= limit or parts == 1, "file %d has at most %d rows" % (i, limit))
            sx.check(len(b) > 0, "file %d has rows" % i)
        joined = [l for b in bodies for l in b]
        sx.check_eq(joined, body, "the data sections together are the unsplit data")
        if not opts.get("no_header"):
            for i, o in enumerate(out):
                sx.check_eq(number_line(o[5], delim), ["%d" % (i + 1), "%d" % parts],
                            "volume number and total of file %d" % i)
    sx.check(pos == len(got), "no other files are reported")


def header_length(line, delim):
    t = [x for x in refna.tokens(line, delim) if x != ""]
    return int(t[-2])


def cases(tier):
    out = []

    def add(name, n, kind="free", nv=1, extra=(), file="out.na", **opts):
        out.append({"name": name, "fn": "split",
                    "params": {"n": n, "kind": kind, "nv": nv, "extra": list(extra), "name": file, "opts": opts}})
    for n in (1, 2, 3, 4, 5) + ((6, 7, 9) if tier != "quick" else ()):
        add("rows%d" % n, n, nv=1 + n % 2)
    add("many.rows", 25, "sparse", nv=2)
    add("many.more.rows", 120, "sparse", nv=1)
    add("many.outputs", 12, "sparse", nv=1, extra=["other", "2d"])
    add("many.csv", 24, "sparse", nv=2, file="out.csv", delimiter=",", annotation=True)
    add("uniform", 5, "uniform", 2)
    add("time", 4, "time", 1)
    add("three.vars", 3, nv=3)
    add("two.outputs", 4, nv=1, extra=["other"])
    add("with.2d", 3, nv=1, extra=["2d", "single"])
    add("csv", 4, nv=2, file="out.csv", delimiter=",")
    add("no.header", 4, nv=2, no_header=True)
    add("no.header.csv", 3, nv=1, file="a.csv", delimiter=",", no_header=True)
    add("annotation", 4, nv=2, annotation=True, delimiter=",", file="a.csv")
    add("annotation.na", 3, nv=1, annotation=True)
    add("format", 4, nv=1, float_format="%.3f", delimiter="\t")
    add("no.extension", 3, file="out")
    add("long.extension", 3, file="out.names")
    add("short.extension", 3, file="out.n", extra=["other"])
    add("dots", 3, file="a.b.c.na", extra=["other"])
    add("directory", 3, file="d.1/out.na")
    add("directory.none", 3, file="d.1/out", extra=["other"])
    return out
