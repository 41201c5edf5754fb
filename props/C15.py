"""C15 - NetCDF to NASA Ames keeps every variable exactly once."""
from props import ncd, ncshapes, ncconv

NUMERIC = True
NAPPY_MODULES = ncd.NAPPY_MODULES
BOUNDS = ncconv.BOUND
ASSUMPTIONS = ncconv.ASSUMPTIONS + ["at least one selected variable has a dimension (otherwise there is no contents)"]


def once(sx, name, tier):
    vs, ax, outs, o = ncconv.convert(sx, name, tier)
    got = []
    single = []
    comments = []
    for d, ids in outs:
        got += list(ids[0]) + list(ids[1])
        single += list(ids[2])
        comments += list(d["SCOM"])
        sx.check(d["NV"] == len(ids[0]) and len(d["V"]) == d["NV"] and len(d["VNAME"]) == d["NV"],
                 "as many variables as named")
        own = len(d["A"]) - ncconv.EXTRA_AUX.get(d["FFI"], 0)
        sx.check(own == len(ids[1]), "as many auxiliary variables as named")
    want = [v.name for v in vs if v.shape]
    sx.check(sorted(got) == sorted(want), "every variable exactly once: %s instead of %s" % (sorted(got), sorted(want)))
    scalars = [v for v in vs if not v.shape]
    sx.check(len(single) == len(scalars), "every singleton exactly once")
    for v in scalars:
        n = 0
        value = False
        name = ncd.best_name(v)
        for i, c in enumerate(comments):
            if c.startswith("  Variable ") and c.endswith(": " + name) and name in single:
                n += 1
                for e in comments[i + 1:]:
                    if not e.startswith("    "):
                        break
                    if e.startswith("    value = "):
                        value = value or same_value(sx, e[len("    value = "):], v)
        sx.check(n == 1, "singleton %s listed once in the comments" % v.name)
        sx.check(value, "value of singleton %s in the comments" % v.name)


def same_value(sx, text, v):
    if isinstance(v.values, str):
        return text.strip() == v.values or "-" in v.values and text.strip().startswith(v.values)
    if isinstance(v.values, (tuple, list)):     # a date
        return text.strip().startswith("%04d-%02d-%02d" % tuple(v.values[:3]))
    return sx.eq(float(text), v.values)


def cases(tier):
    return [{"name": n, "fn": "once", "params": {"name": n, "tier": tier}} for n in ncshapes.scenarios(tier)]
