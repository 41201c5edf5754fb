"""C23 - output names are predictable, distinct and reported."""
import os

import xarray as xr

from props import ncd, ncio
from sx import core

NUMERIC = True
NAPPY_MODULES = ncd.NAPPY_MODULES
BOUNDS = ("requested and input names of 1-7 symbolic characters (thorough: 9) out of letters, digits, dots, slashes, "
          "blanks, dashes and underscores, one to four and twelve outputs; written files for a list of concrete names")
ASSUMPTIONS = ["a requested name is not a directory (does not end with a slash)"]

AXES = [["t", 2, {"units": "s"}], ["z", 3, {"units": "m"}], ["y", 4, {"units": "deg"}], ["q", 5, {"units": "K"}]] + \
    [["x%d" % i, 2, {"units": "u%d" % i, "kind": "none"}] for i in range(9)]


def converter(sx, nout):
    mod = sx.nappy("nappy.nc_interface.xarray_to_na")
    ax, vs = ncd.build(sx, AXES[:nout], [["v%d" % i, [i], {}] for i in range(nout)])
    return mod.XarrayToNA([v.da for v in vs])


def parts(name):
    """(path without extension, extension): the extension begins at the last
    dot of the last component that is not among its leading dots"""
    k = name.rfind("/") + 1
    last = name[k:]
    i = 0
    while i < len(last) and last[i] == ".":
        i += 1
    j = last[i:].rfind(".")
    if j < 0:
        return name, ""
    return name[:k + i + j], name[k + i + j:]


def symbolic_name(sx, n):
    chars = core.mask_of("abcXYZ019._- /") if sx.symbolic else None
    last = core.mask_of("abcXYZ019._-") if sx.symbolic else None
    return sx.str("name", n, mask=chars, first=chars, last=last)


def requested(sx, n, nout):
    c = converter(sx, nout)
    name = symbolic_name(sx, n)
    got = c.constructNAFileNames(name)
    sx.observe(got)
    sx.check_eq(len(got), nout, "one name per output")
    if nout == 1:
        sx.check_eq(got[0], name, "the requested name")
        return
    stem, ext = parts(name)
    for i in range(nout):
        sx.check_eq(got[i], stem + "_%d" % (i + 1) + ext, "name %d" % (i + 1))
        for j in range(i):
            sx.check(sx.neg(sx.eq(got[i], got[j])), "names %d and %d are distinct" % (j + 1, i + 1))
    sx.check_eq(c.constructNAFileNames(name), got, "asked again")


def default(sx, n, fmt):
    nappy = sx.nappy()
    name = symbolic_name(sx, n)
    got = nappy.getFileNameWithNewExtension(name, fmt)
    stem, ext = parts(name)
    sx.observe(got)
    if 2 <= len(ext) <= 4:
        sx.check_eq(got, stem + "." + fmt, "extension replaced")
    elif ext == "":
        sx.check_eq(got, name + "." + fmt, "extension added")
    elif len(ext) > 4:
        sx.check_eq(got, name + "." + fmt, "long ending kept, extension added")
    else:       # a name that ends with a dot
        sx.check(got.startswith(stem) and got.endswith("." + fmt), "extension added after a final dot")
    sx.check(got.endswith("." + fmt) and len(got) > len(fmt) + 1, "name with the extension of the format")


def source(sx, n, end, nout):
    """no name given: that of the NetCDF file"""
    mod = sx.nappy("nappy.nc_interface.nc_to_na")
    ax, vs = ncd.build(sx, AXES[:nout], [["v%d" % i, [i], {}] for i in range(nout)])
    ds = xr.Dataset(dict((v.name, v.da) for v in vs))
    chars = core.mask_of("nc.aN7_/") if sx.symbolic else None
    last = core.mask_of("nc.aN7_") if sx.symbolic else None
    name = sx.str("name", n, mask=chars, first=chars, last=last) if n else ""
    with ncio.Store(always=ds):
        got = mod.NCToNA(name + end).constructNAFileNames()
    sx.observe(got)
    sx.check_eq(len(got), nout, "one name per output")
    base = name + end
    if base.endswith(".nc"):
        base = base[:len(base) - 3]
    if nout == 1:
        sx.check_eq(got[0], base + ".na", "the name of the NetCDF file with the extension replaced")
    else:
        stem, ext = parts(base + ".na")
        sx.check_eq(got, [stem + "_%d" % (i + 1) + ext for i in range(nout)], "numbered names")


def written(sx, name, nout):
    c = converter(sx, nout)
    if not sx.symbolic and os.path.dirname(name):
        os.makedirs(os.path.dirname(name), exist_ok=True)
    names = c.constructNAFileNames(name)
    c.writeNAFiles(name)
    got = c.output_files_written
    sx.observe(got)
    sx.check(list(got) == list(names), "announced names are the names written")
    sx.check(len(set(got)) == nout, "names are distinct")
    for f in got:
        sx.check(sx.exists(f), "%s was written" % f)
    if not os.path.dirname(name):
        sx.check(sorted(sx.files()) == sorted(got), "no other file was written")
    report = "\n".join(c.output_message)
    for f in got:
        sx.check(f in report, "%s is reported" % f)
    first = c.converted
    c.writeNAFiles("again.na")
    sx.check(len(c.output_files_written) == nout and first, "written again below another name")


def cases(tier):
    out = []
    top = 7 if tier == "quick" else 9
    for n in range(1, top + 1):
        for nout in (1, 2) if n > 3 else (1, 2, 4):
            out.append({"name": "requested.%d.%d" % (n, nout), "fn": "requested", "params": {"n": n, "nout": nout}})
        out.append({"name": "default.%d" % n, "fn": "default", "params": {"n": n, "fmt": ["na", "csv", "nc"][n % 3]}})
    for n in (1,):
        out.append({"name": "requested.%d.12" % n, "fn": "requested", "params": {"n": n, "nout": 12}})
    out.append({"name": "written.out.na.12", "fn": "written", "params": {"name": "out.na", "nout": 12}})
    for n in range(1, 6 if tier == "quick" else 9):
        for end in (".nc", "", ".nc.nc", ".txt"):
            out.append({"name": "source.%d.%s" % (n, end), "fn": "source", "params": {"n": n, "end": end, "nout": 1 if n % 3 else 2}})
    for name in ("out.na", "out", "a.b.na", "out.csv", "d.1/out", "d.1/x.y.na", "d/.hid", "name with blank.txt", ".na",
                 "x_1.na", "noext_", "very.longextension"):
        for nout in (1, 3):
            out.append({"name": "written.%s.%d" % (name, nout), "fn": "written", "params": {"name": name, "nout": nout}})
    return out
