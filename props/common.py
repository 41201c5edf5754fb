"""Helpers shared by the file-format harnesses."""
from props import nad, refna


def write(sx, nappy, d, path="o.na", mode="w", **opts):
    f = nappy.openNAFile(path, mode, d)
    f.write(**opts)
    f.close()
    return sx.text(path)


def read(nappy, path):
    f = nappy.openNAFile(path)
    f.readData()
    return f


HEAD_STR = ("ONAME", "ORG", "SNAME", "MNAME")
HEAD_INT = ("FFI", "NIV", "IVOL", "NVOL", "NV", "NSCOML", "NNCOML")


def exp(v, ff):
    """the value a reader gets for v written with format ff"""
    if ff is None:
        return v
    if isinstance(v, list):
        return [exp(x, ff) for x in v]
    if v is None:
        return None
    return float(ff % v)


def stripped(s):
    return [x.strip() for x in s]


def contents(f):
    """contents of a reader object as a plain dictionary"""
    ffi = f.FFI
    keys = list(HEAD_STR) + list(HEAD_INT) + ["NLHEAD", "DATE", "RDATE", "DX", "XNAME", "VSCAL",
                                              "VMISS", "VNAME", "SCOM", "NCOM", "X", "V"]
    if ffi != 1001:
        keys += ["NAUXV", "A"]
        if f.NAUXV > 0:
            keys += ["ANAME", "ASCAL", "AMISS"]
    if ffi == 1020:
        keys += ["NVPM"]
    if ffi in (2010, 3010, 4010):
        keys += ["NX", "NXDEF"]
    if ffi in (2110, 2160, 2310):
        keys += ["NX"]
    if ffi == 2160:
        keys += ["LENX", "NAUXC"]
        if f.NAUXV > 0:
            keys += ["LENA"]
    return dict((k, getattr(f, k)) for k in keys)


def same(sx, got, want, ff, what, nlhead=None):
    """The contents dictionary got equals the supplied contents, data values
    as read back from format ff."""
    def eq(k, g, w):
        sx.check_eq(g, w, "%s: %s" % (what, k))
    ffi = want["FFI"]
    for k in HEAD_INT:
        eq(k, got[k], want[k])
    for k in HEAD_STR:
        eq(k, got[k].strip(), want[k].strip())
    if nlhead is not None:
        eq("NLHEAD", got["NLHEAD"], nlhead)
    eq("DATE", list(got["DATE"]), want["DATE"])
    eq("RDATE", list(got["RDATE"]), want["RDATE"])
    eq("VSCAL", list(got["VSCAL"]), want["VSCAL"])
    eq("VMISS", list(got["VMISS"]), exp(want["VMISS"], ff))
    for k in ("XNAME", "VNAME", "SCOM", "NCOM"):
        eq(k, stripped(got[k]), stripped(want[k]))
    if ffi in (2160, 2310):
        eq("DX", got["DX"][0], want["DX"][0])
    else:
        eq("DX", list(got["DX"]), want["DX"])
    if ffi == 1020:
        eq("NVPM", got["NVPM"], want["NVPM"])
    if ffi in (2010, 3010, 4010):
        eq("NX", list(got["NX"]), want["NX"])
        eq("NXDEF", list(got["NXDEF"]), want["NXDEF"])
    if ffi in (2110, 2160, 2310):
        eq("NX", [int(x) for x in got["NX"]], want["NX"])
    na = 0
    if ffi != 1001:
        na = want["NAUXV"]
        eq("NAUXV", got["NAUXV"], na)
        if na > 0:
            eq("ANAME", stripped(got["ANAME"]), stripped(want["ANAME"]))
    k = na
    if ffi == 2160:
        eq("LENX", got["LENX"], want["LENX"])
        eq("NAUXC", got["NAUXC"], want["NAUXC"])
        k = na - want["NAUXC"]
        if na > 0:
            eq("LENA", list(got["LENA"])[k:], want["LENA"][k:])
            eq("AMISS", stripped(got["AMISS"][k:]), stripped(want["AMISS"][k:]))
            eq("A (text)", [stripped(a) for a in got["A"][k:]], [stripped(a) for a in want["A"][k:]])
    if k > 0:
        eq("ASCAL", list(got["ASCAL"])[:k], want["ASCAL"][:k])
        eq("AMISS", list(got["AMISS"])[:k], exp(want["AMISS"][:k], ff))
    if ffi != 1001:
        eq("A", got["A"][:k], exp(want["A"][:k], ff))
    X = want["X"]
    if ffi == 2160:
        eq("X names", [x[0].strip() for x in got["X"]], [x[0].strip() for x in X])
        eq("X", [x[1] for x in got["X"]], [exp(x[1], ff) for x in X])
    elif ffi == 2310:
        eq("X", [[x[0], x[1][0]] for x in got["X"]], [[exp(x[0], ff), exp(x[1][0], ff)] for x in X])
    else:
        eq("X", got["X"], exp(X, ff))
    eq("V", got["V"], exp(want["V"], ff))


PROSE = "The quick brown fox: (jumps) over 13.5 lazy dogs; x = a/b & c, twice "


def long_text(sx, name, n):
    """a text of n characters, ordinary prose with symbolic ends and middle"""
    p = (PROSE * (n // len(PROSE) + 1))[:n]
    h = n // 2
    return sx.str(name + "b", 1) + p[1:h] + sx.str(name + "m", 1, first=sx.TEXT, last=sx.TEXT) + \
        p[h + 1:n - 1] + sx.str(name + "e", 1)


def thin(cands, top=25):
    """of many positions: the first ones, the last ones and some in between"""
    cands = list(cands)
    if len(cands) <= 3 * top:
        return cands
    step = len(cands) // top + 1
    return [c for i, c in enumerate(cands) if i % step == 0 or i < 5 or i >= len(cands) - 5]
