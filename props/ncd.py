"""Builder of in-memory data arrays (real xarray objects) with symbolic values,
shared by the harnesses of the NetCDF side.

A case is described by
  axes: [name, length, options]      options: units, long_name, kind, sub
  vars: [name, [axis numbers], options]
kind of an axis: "free" (any values), "uniform" (start and step symbolic),
"time" (concrete decoded dates).
"""
import numpy as np
import xarray as xr


NAPPY_MODULES = ["nappy.nc_interface.na_to_xarray", "nappy.nc_interface.na_to_nc",
                 "nappy.nc_interface.xarray_to_na", "nappy.nc_interface.nc_to_na",
                 "nappy.nc_interface.xarray_objs_to_na_files",
                 "nappy.nc_interface.na_content_collector", "nappy.nc_interface.xarray_utils"]


class Axis:
    pass


class Var:
    pass


TIME_UNITS = "hours since 2001-02-27 00:00:00"


def array(sx, nested, shape):
    a = np.empty(shape, dtype=object if sx.symbolic else float)
    for i in np.ndindex(*shape):
        x = nested
        for k in i:
            x = x[k]
        a[i] = x
    return a


def nest(fn, shape, at=()):
    if len(at) == len(shape):
        return fn(at)
    return [nest(fn, shape, at + (i,)) for i in range(shape[len(at)])]


# values of concrete arrays (exact in single precision)
CONCRETE = [1.5, -1024.0]


def scalar(value, o):
    """a zero-dimensional array of something which is not a number"""
    if o.get("what") == "date":
        import cftime
        return np.array(cftime.datetime(*value, calendar=o.get("calendar", "standard")))
    if o.get("what") == "numpy date":
        return np.array(value, dtype="datetime64[ns]")
    if o.get("what") == "bytes":
        return np.array(value.encode(), dtype="S%d" % len(value))
    return np.array(value)


def index(nested, at):
    for k in at:
        nested = nested[k]
    return nested


def grid(sx, name):
    """a coordinate value; witnesses are multiples of 1/4, so that differences
    and sums are exact in floating point as well"""
    return sx.grid(name, -1000, 1000)


def make_axis(sx, k, name, n, o):
    ax = Axis()
    ax.name, ax.n, ax.kind = name, n, o.get("kind", "free")
    p = "x%d." % k
    ax.units = units_of(sx, p, o)
    ax.long_name = o.get("long_name")
    attrs = dict(o.get("attrs", {}))
    ax.attrs = attrs
    if "units" in attrs:
        ax.units = str(attrs["units"])
    if ax.long_name:
        attrs["long_name"] = ax.long_name
    if ax.units is not None and ax.kind != "time" and "units" not in attrs:
        attrs["units"] = ax.units
    ax.encoding = {}
    if ax.kind == "time":
        import cftime
        ax.units = o.get("time_units", TIME_UNITS)
        # spacing of the dates chosen among constant and changing ones
        step = sx.pick(p + "step", o.get("steps", [6, 24]))
        gaps = [0]
        for i in range(1, n):
            gaps.append(gaps[-1] + step * (1 if i < 2 or not sx.choose("%sirr%d" % (p, i), 0, 1) else 2))
        start = sx.pick(p + "start", o.get("starts", [0, 36]))
        ax.values = [float(start + g) for g in gaps]
        cal = o.get("calendar", "standard")
        dates = cftime.num2date(ax.values, ax.units, calendar=cal)
        data = np.array(list(dates), dtype=object)
        if o.get("numpy"):
            data = np.array([d.isoformat() for d in dates], dtype="datetime64[ns]")
        ax.encoding = {"units": ax.units, "calendar": cal}
        ax.dates = list(dates)
    else:
        if ax.kind == "uniform":
            s, d = grid(sx, p + "s"), grid(sx, p + "d")
            sx.assume(d != 0)
            ax.values = [s + d * i for i in range(n)]
        elif ax.kind == "sparse":       # uneven fixed values, one in seventeen symbolic
            ax.values = [grid(sx, "%s%d" % (p, i)) if i % 17 == 5 else i * 1.5 + (i % 3) * 0.25 for i in range(n)]
        elif ax.kind == "none":         # a dimension without coordinates
            ax.values = [float(i) for i in range(n)]
        elif ax.kind == "sub":
            base, start, every = o["of"].values, o.get("from", 0), o["every"]
            ax.values = [base[start + every * i] for i in range(n)]
        else:
            ax.values = [grid(sx, "%s%d" % (p, i)) for i in range(n)]
        data = array(sx, ax.values, (n,))
    ax.da = xr.DataArray(data, dims=[name], name=name, attrs=attrs)
    ax.da.encoding.update(ax.encoding)
    ax.da = xr.DataArray(ax.da.variable, dims=[name], name=name, coords={name: ax.da})
    ax.da.encoding.update(ax.encoding)
    return ax


def units_of(sx, p, o):
    u = o.get("units")
    if isinstance(u, int):
        return sx.str(p + "u", u, mask=sx.NOBRACKETS)
    return u


def make_axes(sx, axes):
    out = []
    for k, (name, n, o) in enumerate(axes):
        o = dict(o)
        if o.get("kind") == "sub":
            o["of"] = out[o["of"]]
        out.append(make_axis(sx, k, name, n, o))
    return out


def make_vars(sx, axes, specs):
    out = []
    for k, (name, dims, o) in enumerate(specs):
        v = Var()
        p = "v%d." % k
        v.name, v.axes = name, [axes[i] for i in dims]
        v.shape = tuple(a.n for a in v.axes)
        v.units = units_of(sx, p, o)
        v.long_name = o.get("long_name")
        v.attrs = dict(o.get("attrs", {}))
        nan = set(tuple(i) for i in o.get("nan", []))
        if "concrete" in o:
            v.values = o["concrete"]
        elif "dtype" in o:
            v.values = nest(lambda at: sx.pick(p + ".".join(map(str, at)), CONCRETE + ([float("nan")] if at in nan else [])),
                            v.shape)
        elif "sparse" in o:             # fixed values, some symbolic
            v.values = nest(lambda at: sx.float(p + ".".join(map(str, at)), -1e9, 1e9, nan=at in nan)
                            if at in nan or sum((i + 1) * q for i, q in enumerate(at)) % o["sparse"] == 3
                            else (k + 1) * 1000 + sum(q * 31 ** i for i, q in enumerate(at)) * 0.25, v.shape)
        else:
            v.values = nest(lambda at: sx.float(p + ".".join(map(str, at)), -1e9, 1e9, nan=at in nan), v.shape)
        f = o.get("fill")
        v.fill = sx.float(p + "fill") if f == "sym" else f
        if isinstance(f, list):
            v.fill = sx.pick(p + "fill", f)
        attrs = dict(v.attrs)
        if v.long_name:
            attrs["long_name"] = v.long_name
        if "units" in attrs:
            v.units = str(attrs["units"])
        elif v.units is not None:
            attrs["units"] = v.units
        if "num" in o:
            attrs["nasa_ames_var_number"] = sx.pick(p + "num", o["num"]) if isinstance(o["num"], list) else \
                sx.choose(p + "num", 0, o["num"]) if o["num"] < 100 else o["num"]
        if "auxnum" in o:
            attrs["nasa_ames_aux_var_number"] = sx.pick(p + "auxnum", o["auxnum"]) \
                if isinstance(o["auxnum"], list) else sx.choose(p + "auxnum", 0, o["auxnum"])
        if not v.shape:
            da = xr.DataArray(scalar(v.values, o) if "concrete" in o else array(sx, v.values, ()), name=name, attrs=attrs)
        else:
            coords = dict((a.name, a.da) for a in v.axes if a.kind != "none")
            data = np.array(v.values, dtype=o["dtype"]) if "dtype" in o else array(sx, v.values, v.shape)
            if "dtype" in o:
                v.values = data.astype(float).tolist()
            da = xr.DataArray(data, dims=[a.name for a in v.axes], coords=coords, name=name,
                              attrs=attrs)
            for a in v.axes:
                if a.kind == "none":
                    continue
                da.coords[a.name].encoding.update(a.encoding)
        if f is not None:
            da.encoding[o.get("fillkey", "_FillValue")] = v.fill
        v.da = da
        out.append(v)
    return out


def build(sx, axes, variables):
    ax = make_axes(sx, axes)
    return ax, make_vars(sx, ax, variables)


def best_name(o):
    """name in the header: description (or name) with units in brackets"""
    n = o.long_name or o.attrs.get("standard_name") or o.attrs.get("title") or o.name
    u = (o.units or "").strip()
    return "%s (%s)" % (n, u) if u else n


def flat(nested):
    if isinstance(nested, (list, tuple)):
        for x in nested:
            for y in flat(x):
                yield y
    else:
        yield nested
