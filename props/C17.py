"""C17 - converted values and missing data are exact."""
from props import ncd, ncshapes, ncconv

NUMERIC = True
NAPPY_MODULES = ncd.NAPPY_MODULES
BOUNDS = ncconv.BOUND
ASSUMPTIONS = ncconv.ASSUMPTIONS


def exact(sx, name, tier):
    vs, ax, outs, o = ncconv.convert(sx, name, tier)
    for d, ids in outs:
        for kind, names in (("V", ids[0]), ("A", ids[1])):
            off = ncconv.EXTRA_AUX.get(d["FFI"], 0) if kind == "A" else 0
            for i, n in enumerate(names):
                v = ncconv.by_name(vs, n)
                k = i + off
                # a fill value that is not a number cannot mark points in a file
                miss = -1.e20 if v.fill is None or v.fill != v.fill else v.fill
                sx.check_eq(d[kind + "MISS"][k], miss, "missing value of %s" % n)
                sx.check_eq(d[kind + "SCAL"][k], 1, "scale factor of %s" % n)
                sx.check_eq(d[kind + "NAME"][k], ncd.best_name(v), "name of %s" % n)
                got = d[kind][k]
                same_shape(sx, got, v.shape, n)
                sx.check(ncconv.plain(got), "values of %s are plain numbers" % n)
                sx.check_eq(list(ncd.flat(got)),
                            [sx.ite(sx.isnan(x), miss, x) for x in ncd.flat(v.values)], "values of %s" % n)


def same_shape(sx, got, shape, n):
    if shape:
        sx.check(isinstance(got, list) and len(got) == shape[0], "shape of %s" % n)
        for g in got:
            same_shape(sx, g, shape[1:], n)


def cases(tier):
    return [{"name": n, "fn": "exact", "params": {"name": n, "tier": tier}} for n in ncshapes.names(tier)]
