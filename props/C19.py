"""C19 - converted contents are consistent and can be read back."""
from props import ncd, ncshapes, ncconv, common, nad

NUMERIC = True
NAPPY_MODULES = ncd.NAPPY_MODULES
BOUNDS = ncconv.BOUND
ASSUMPTIONS = ncconv.ASSUMPTIONS + [
    "values in the file are those of the number format (read-back function of C03)"]


def consistent(sx, d):
    def n(k, v):
        sx.check(d[k] == v, "%s is the length of what it counts" % k)
    niv = d["FFI"] // 1000
    n("NIV", niv)
    n("NV", len(d["V"]))
    for k in ("VNAME", "VSCAL", "VMISS"):
        sx.check(len(d[k]) == d["NV"], "as many %s as variables" % k)
    n("NSCOML", len(d["SCOM"]))
    n("NNCOML", len(d["NCOM"]))
    sx.check(len(d["XNAME"]) == niv, "one name per axis")
    sx.check(len(d["DX"]) >= (1 if d["FFI"] == 2310 else niv), "one interval per axis")
    n("NAUXV", len(d["A"]))
    for k in ("ANAME", "ASCAL", "AMISS"):
        sx.check(len(d[k]) == d["NAUXV"], "as many %s as auxiliary variables" % k)
    for k in ("DATE", "RDATE"):
        sx.check(len(d[k]) == 3, "%s has three numbers" % k)
    if d["FFI"] == 1001:
        sx.check(d["NAUXV"] == 0, "1001 has no auxiliary variables")
    sx.check(d["IVOL"] == 1 and d["NVOL"] == 1, "volume numbers")


def readback(sx, name, tier, opts=None):
    nappy = sx.nappy()
    vs, ax, outs, o = ncconv.convert(sx, name, tier)
    for k, (d, ids) in enumerate(outs):
        consistent(sx, d)
        want = nad.clone(d)
        common.write(sx, nappy, d, "o%d.na" % k, **(opts or {}))
        f = common.read(nappy, "o%d.na" % k)
        got = common.contents(f)
        # these fields come from global attributes, which are not given here
        for h in ("ONAME", "ORG", "SNAME", "MNAME"):
            want.setdefault(h, got[h])
        common.same(sx, got, want, "%.10g", "output %d" % k)


def cases(tier):
    return [{"name": n, "fn": "readback", "params": {"name": n, "tier": tier}} for n in ncshapes.names(tier)]
