"""C16 - variables share an output only if their axes are identical."""
from props import ncd, ncshapes, ncconv

NUMERIC = True
NAPPY_MODULES = ncd.NAPPY_MODULES
BOUNDS = ncconv.BOUND
ASSUMPTIONS = ncconv.ASSUMPTIONS


def shared(sx, name, tier):
    vs, ax, outs, o = ncconv.convert(sx, name, tier)
    for d, ids in outs:
        first = ncconv.by_name(vs, ids[0][0])
        for n in ids[0][1:]:
            v = ncconv.by_name(vs, n)
            sx.check(len(v.axes) == len(first.axes), "same rank of %s and %s" % (first.name, n))
            for i, (a, b) in enumerate(zip(first.axes, v.axes)):
                sx.check(ncconv.same_axis(sx, a, b), "axis %d of %s and %s identical" % (i, first.name, n))
        written = ncconv.axes_of(sx, d)
        sx.check(len(written) == len(first.axes), "number of axes")
        for i, a in enumerate(first.axes):
            sx.check_eq(written[i], a.values, "values of axis %d" % i)
            sx.check_eq(d["XNAME"][i], ncd.best_name(a), "name of axis %d" % i)
        for n in ids[1]:
            v = ncconv.by_name(vs, n)
            sx.check(len(v.axes) == 1, "auxiliary variable %s has one axis" % n)
            a = v.axes[0]
            if d["FFI"] == 1020:
                u = a.units is None and first.axes[0].units is None or sx.eq(a.units, first.axes[0].units)
                sx.check(u, "units of the axis of auxiliary variable %s" % n)
                sx.check_eq(d["X"], a.values, "axis of auxiliary variable %s" % n)
            else:
                sx.check(ncconv.same_axis(sx, a, first.axes[0]), "axis of auxiliary variable %s is the first axis" % n)


def cases(tier):
    return [{"name": n, "fn": "shared", "params": {"name": n, "tier": tier}} for n in ncshapes.names(tier)]
