"""NASA Ames -> array object conversion: builds files, runs it and holds the
model of names and values."""
import numpy as np

from props import nad, refna, common, C02

FFIS = (1001, 1010, 1020, 2010, 3010, 4010)
UNSAFE = "/[()]=+-?#~@&$%!*{}^ \t\n\r\x0b\x0c"
XNAMES = ["Elapsed seconds (s)", "Pressure altitude (m)", "North-South", "x"]
TYPES = [("longitude", "X"), ("latitude", "Y"), ("level", "Z"), ("time", "T")]

SHAPES = [
    ("1001.a", 1001, dict(nv=2, m=3)),
    ("1001.one", 1001, dict(nv=1, m=1, nscom=0, nncom=0)),
    ("1010.a", 1010, dict(nv=1, naux=2, m=2)),
    ("1010.none", 1010, dict(nv=2, naux=0, m=2)),
    ("1020.a", 1020, dict(nv=2, naux=1, m=2, nvpm=3)),
    ("1020.b", 1020, dict(nv=1, naux=2, m=3, nvpm=2)),
    ("1020.one", 1020, dict(nv=1, naux=1, m=1, nvpm=2)),
    ("2010.a", 2010, dict(nv=2, naux=1, m=2, nx=(3,))),
    ("2010.imp", 2010, dict(nv=1, naux=2, m=2, nx=(3,), nxdef=(1,))),
    ("2010.one", 2010, dict(nv=1, naux=0, m=1, nx=(1,))),
    ("3010.a", 3010, dict(nv=1, naux=1, m=2, nx=(2, 3))),
    ("3010.imp1", 3010, dict(nv=1, naux=0, m=1, nx=(3, 2), nxdef=(1, 2))),
    ("3010.imp2", 3010, dict(nv=2, naux=1, m=2, nx=(2, 2), nxdef=(2, 1))),
    ("3010.imp", 3010, dict(nv=1, naux=1, m=2, nx=(2, 4), nxdef=(1, 1))),
    ("4010.a", 4010, dict(nv=1, naux=1, m=2, nx=(2, 3, 1))),
    ("4010.imp1", 4010, dict(nv=1, naux=0, m=1, nx=(2, 1, 3), nxdef=(1, 1, 3))),
    ("4010.imp2", 4010, dict(nv=2, naux=1, m=1, nx=(3, 2, 2), nxdef=(3, 2, 1))),
    ("4010.imp", 4010, dict(nv=1, naux=1, m=2, nx=(2, 3, 2), nxdef=(1, 1, 1))),
    # more of everything, with few symbolic values among fixed ones
    ("1001.rows", 1001, dict(nv=2, m=150, sparse=31)),
    ("1001.vars", 1001, dict(nv=33, m=2, sparse=13)),
    ("1010.many", 1010, dict(nv=12, naux=14, m=11, sparse=29)),
    ("1020.rows", 1020, dict(nv=2, naux=2, m=4, nvpm=30, sparse=31)),
    ("2010.rows", 2010, dict(nv=2, naux=2, m=12, nx=(24,), sparse=31)),
    ("2010.improws", 2010, dict(nv=1, naux=2, m=3, nx=(70,), nxdef=(1,), sparse=31)),
    ("4010.rows", 4010, dict(nv=1, naux=1, m=3, nx=(2, 11, 3), nxdef=(2, 1, 3), sparse=31)),
]


def more(tier):
    out = list(SHAPES)
    if tier == "quick":
        return out
    for m in (1, 2, 4):
        for nv in (1, 3):
            out.append(("1001.%d%d" % (m, nv), 1001, dict(nv=nv, m=m)))
            for naux in (1, 3):
                out.append(("1010.%d%d%d" % (m, nv, naux), 1010, dict(nv=nv, m=m, naux=naux)))
                for nvpm in (1, 2, 4):
                    out.append(("1020.%d%d%d%d" % (m, nv, naux, nvpm), 1020, dict(nv=nv, m=m, naux=naux, nvpm=nvpm)))
    for m in (1, 3):
        for nx in ((1,), (2,), (5,)):
            for nd in sorted({(1,), nx}):
                out.append(("2010.%d%d%d" % (m, nx[0], nd[0]), 2010, dict(nv=2, naux=1, m=m, nx=nx, nxdef=nd)))
        for nx in ((1, 3), (4, 2), (3, 3)):
            for nd in sorted({(1, 1), nx, (1, nx[1]), (nx[0], 1)}):
                out.append(("3010.%d%d%d%d%d" % ((m,) + nx + nd), 3010, dict(nv=1, naux=1, m=m, nx=nx, nxdef=nd)))
        for nx in ((1, 2, 3), (3, 2, 2), (2, 2, 4)):
            for k in range(8):
                nd = tuple(1 if k >> i & 1 else nx[i] for i in range(3))
                out.append(("4010.%d.%d%d%d.%d" % ((m,) + nx + (k,)), 4010, dict(nv=1, naux=1, m=m, nx=nx, nxdef=nd)))
    return out


def contents(sx, ffi, kw, xnames=None, vnames=None, anames=None, **text):
    """consistent contents whose axis names are concrete (they become names of
    array dimensions)"""
    d = nad.build(sx, ffi, **kw)
    for i in range(d["NIV"]):
        d["XNAME"][i] = (xnames or XNAMES)[i]
    for key, names in (("VNAME", vnames), ("ANAME", anames)):
        for i in range(len(d.get(key, []))):
            if names is None:
                d[key][i] = "%s %d (K)" % ("Aux" if key == "ANAME" else "Main", i)
            else:
                d[key][i] = names[i]
    d.update(text)
    d["NSCOML"], d["NNCOML"] = len(d["SCOM"]), len(d["NCOM"])
    return d


def put(sx, d, path="in.na", ff="%s"):
    n, lines = C02.build(sx, d, ff)
    sx.put(path, "\n".join(lines) + "\n")
    return n


def expanded(d):
    """the declared axes, in full length"""
    if d["FFI"] == 1020:
        return [[x + i * d["DX"][0] for x in d["X"] for i in range(d["NVPM"])]]
    if d["NIV"] == 1:
        return [list(d["X"])]
    out = [list(d["X"][0])]
    for i in range(1, d["NIV"]):
        nx, nxdef = d["NX"][i - 1], d["NXDEF"][i - 1]
        x = list(d["X"][i])
        out.append(x if nxdef == nx else [x[0] + j * d["DX"][i] for j in range(nx)])
    return out


def split_units(name):
    """(name, units) for the names used here: at most one bracketed part, at the end"""
    if "(" in name:
        k = name.index("(")
        return name[:k].strip(), name[k + 1:name.index(")")]
    return name.strip(), None


def clean(name):
    """identifier made of a name: runs of other characters become one underscore"""
    out = []
    for c in name:
        if c in UNSAFE:
            if not out or out[-1] != "_u":
                out.append("_u")
        else:
            out.append(c)
    return "".join("_" if c == "_u" else c for c in out).lower()


def scaled(sx, v, miss, scale):
    if isinstance(v, list):
        return [scaled(sx, x, miss, scale) for x in v]
    return sx.ite(sx.eq(v, miss), v, v * scale)


def tolist(a):
    return np.asarray(getattr(a, "data", a)).tolist()


def values(nappy, path="in.na"):
    """recorded contents, as read (C02)"""
    f = nappy.openNAFile(path)
    f.readData()
    d = common.contents(f)
    f.close()
    return d
