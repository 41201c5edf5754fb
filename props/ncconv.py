"""NetCDF -> NASA Ames conversion: runs it and gives the model of what must hold."""
import numpy as np
import xarray as xr

from props import ncd, ncshapes

BOUND = ("sets of 1 to 14 variables of rank 0-4 over up to seven axes of 1-12 points, coordinates and values "
         "symbolic (coordinates any real in +-1000, values any real up to 1e9), up to two points of a variable "
         "possibly missing, fill values symbolic, several orders of the variables; also up to 35 variables, 12 sets of axes and axes of 150 points with a few symbolic values among fixed ones; see props/ncshapes.py")
ASSUMPTIONS = [
    "xarray and numpy run as they are, on arrays of symbolic numbers; numpy functions without a meaning on such "
    "arrays (isnan, linspace, ...) are replaced by their real-number definition",
    "variables and dimensions have concrete names; times are concrete dates",
]


def convert(sx, name, tier):
    """Returns (model variables in the order given, axes, outputs)"""
    nappy = sx.nappy("nappy.nc_interface.xarray_to_na")
    axes, variables, o = ncshapes.scenarios(tier)[name]
    ax, vs = ncd.build(sx, axes, variables)
    order = sx.pick("order", ncshapes.orders(len(vs), o.get("orders")))
    vs = [vs[i] for i in order]
    das = [v.da for v in vs]
    if o.get("coords"):
        das = [a.da for a in ax[:1]] + das + [a.da for a in ax[1:]]
    c = nappy.XarrayToNA(das, requested_ffi=o.get("ffi"))
    outs = c.convert()
    sx.check(outs is not None and len(outs) > 0, "contents are produced")
    for d, ids in outs:
        sx.observe([d["FFI"], ids, d["V"], d["X"], d["DX"], d["VMISS"], d["A"]])
    return vs, ax, outs, o


def by_name(vs, name):
    m = [v for v in vs if v.name == name]
    return m[0] if len(m) == 1 else None


def same_axis(sx, a, b, names=True):
    """condition: two axes are identical"""
    if (names and a.name != b.name) or a.n != b.n:
        return False
    if (a.units is None) != (b.units is None):
        return False
    u = True if a.units is None else sx.eq(a.units, b.units)
    return sx.all([u] + [sx.eq(x, y) for x, y in zip(a.values, b.values)])


def num(x):
    return x.item() if isinstance(x, (np.ndarray, np.generic)) else x


def plain(x):
    """contents are lists of plain numbers"""
    if isinstance(x, (list, tuple)):
        return all(plain(y) for y in x)
    return not isinstance(x, (np.ndarray, xr.DataArray)) and not hasattr(x, "calendar")


def axes_of(sx, d):
    """the coordinates which the contents describe, by the format's rules"""
    ffi = d["FFI"]
    DX = d["DX"]

    def constant(values, dx, what):
        # an interval is given only if the spacing is constant
        sx.check(sx.any([dx == 0] + ([sx.all([sx.eq(b - a, dx) for a, b in zip(values, values[1:])])]
                                     if len(values) > 1 else [False])), "%s: nonzero interval only if spacing is constant" % what)
        if len(values) > 1:
            gaps = [b - a for a, b in zip(values, values[1:])]
            sx.check(sx.any([dx != 0, gaps[0] == 0, sx.neg(sx.all([sx.eq(g, gaps[0]) for g in gaps[1:]]))]),
                     "%s: a constant spacing is given as interval" % what)
    if ffi in (1001, 1010):
        constant(d["X"], DX[0], "first axis")
        return [d["X"]]
    if ffi == 1020:
        sx.check(DX[0] != 0, "interval of the implied values")
        return [[x + i * DX[0] for x in d["X"] for i in range(d["NVPM"])]]
    if ffi in (2010, 3010, 4010):
        niv = d["NIV"]
        sx.check(len(d["X"]) == niv and len(DX) == niv and len(d["NX"]) == niv - 1 and len(d["NXDEF"]) == niv - 1,
                 "one definition per axis")
        constant(d["X"][0], DX[0], "first axis")
        out = [d["X"][0]]
        for i in range(1, niv):
            nx, nxdef, x = d["NX"][i - 1], d["NXDEF"][i - 1], d["X"][i]
            sx.check(len(x) == nxdef, "axis %d: as many recorded values as declared" % i)
            if nxdef == nx:
                constant(x, DX[i], "axis %d" % i)
                out.append(x)
            else:
                sx.check(nxdef == 1, "axis %d: all values or the first one recorded" % i)
                sx.check(DX[i] != 0, "axis %d: interval of the implied values" % i)
                out.append([x[0] + j * DX[i] for j in range(nx)])
        return out
    X = d["X"]
    first = [x[0] for x in X]
    constant(first, DX[0], "first axis")
    sx.check_eq([num(n) for n in d["NX"]], [num(n) for n in d["A"][0]], "counts of the second axis")
    if ffi == 2110:
        constant(X[0][1], DX[1], "second axis")
        out = X[0][1]
        for m in range(len(X)):
            sx.check(len(X[m][1]) == d["NX"][m], "as many values of the second axis as declared")
            sx.check_eq(X[m][1], out, "values of the second axis")
        return [first, out]
    out = None
    for m in range(len(X)):
        sx.check_eq(d["A"][1][m], X[m][1][0], "first value of the second axis")
        v = [X[m][1][0] + j * d["A"][2][m] for j in range(d["NX"][m])]
        if out is None:
            out = v
        sx.check_eq(v, out, "values of the second axis")
    return [first, out]


EXTRA_AUX = {2110: 1, 2310: 3}
