"""Sets of variables given to the NetCDF -> NASA Ames conversion.

name -> (axes, variables, options); see ncd.py for the notation.  options:
  ffi      requested format index (None: none requested)
  orders   which orders of the variables are explored ("all", or a list)
  coords   coordinate variables are part of the list (as when reading a file)
"""
import itertools

T = ["t", 3, {"units": "s", "long_name": "Elapsed"}]
Z = ["z", 2, {"units": "m", "long_name": "Height"}]
Y = ["y", 2, {"long_name": "North"}]
X = ["x", 2, {}]


def ax(base, n=None, **o):
    return [base[0], n or base[1], dict(base[2], **o)]


def var(name, dims, **o):
    o.setdefault("long_name", "Long " + name)
    o.setdefault("units", "K")
    return [name, dims, o]


def scenarios(tier):
    S = {}

    def add(name, axes, variables, **o):
        S[name] = (axes, variables, o)

    # several variables of one axis
    add("1d", [T], [var("v", [0], nan=[(1,)], fill="sym"), var("w", [0], units=None), var("u", [0], nan=[(0,)])],
        orders="all")
    add("1d.two", [ax(T, 2)], [var("v", [0], units=2), var("w", [0], long_name=None, fill="sym", fillkey="missing_value",
                                                          nan=[(1,)])])
    add("1d.one", [ax(T, 1)], [var("v", [0]), var("s", [])])
    add("1d.four", [ax(T, 4)], [var("v", [0], fill=-9.0, fillkey="_fill_value", nan=[(2,), (3,)])])
    # same axis name, symbolic coordinates: one output or two
    add("axes.value", [ax(T, 2), ax(T, 2)], [var("v", [0]), var("w", [1])], orders="all")
    add("axes.units", [ax(T, 2, units=1), ax(T, 2, units=1, kind="sub", of=0, every=1)],
        [var("v", [0]), var("w", [1])])
    add("axes.name", [ax(T, 2), ["tt", 2, dict(T[2], kind="sub", of=0, every=1)]], [var("v", [0]), var("w", [1])],
        orders="all")
    add("axes.second", [T, Z, ax(Z)], [var("v", [0, 1]), var("w", [0, 2])])
    add("axes.first", [ax(T, 2), Z, ax(T, 2)], [var("v", [0, 1]), var("w", [2, 1]), var("a", [2])])
    add("axes.third", [T, Z, Y, ax(Y)], [var("v", [0, 1, 2]), var("w", [0, 1, 3])])
    add("axes.swapped", [ax(T, 2), Z], [var("v", [0, 1]), var("w", [1, 0])], orders="all")
    add("axes.same", [ax(T, 2), ax(Z, 2, kind="sub", of=0, every=1)], [var("v", [0, 1]), var("a", [1]), var("b", [0])],
        orders="all")
    add("three.sets", [ax(T, 2), ax(Z, 3), ax(Y, 2)], [var("v", [0]), var("w", [1]), var("u", [2]), var("r", [2])],
        orders=[0, 5, 11, 17, 23])
    # ranks mixed
    add("2d.aux", [T, Z], [var("v", [0, 1], nan=[(1, 1)]), var("a", [0], nan=[(2,)], fill="sym"), var("b", [1]),
                           var("s", [])], orders=[0, 5, 12, 23])
    add("2d.two", [ax(T, 2), ax(Z, 3)], [var("v", [0, 1], fill="sym", nan=[(0, 2)]), var("w", [0, 1], units=None),
                                         var("a", [0]), var("c", [0], units=1)])
    add("3d", [T, Z, Y], [var("p", [0, 1]), var("v", [0, 1, 2], fill="sym", nan=[(1, 1, 0)]), var("a", [0])],
        orders="all")
    add("3d.mixed", [ax(T, 2), Z, Y], [var("p", [1, 2]), var("v", [0, 1, 2]), var("q", [0, 2]), var("b", [2])],
        orders=[0, 9, 23])
    add("4d", [ax(T, 2), Z, ax(Y, 3), X], [var("v", [0, 1, 2, 3], nan=[(1, 0, 2, 1)]), var("q", [0, 1]), var("a", [0])],
        orders=[0, 5])
    # singletons
    add("singles", [ax(T, 2)], [var("s", [], long_name="v"), var("v", [0]), var("r", [], units=None, long_name="Long v"),
                                var("w", [0], long_name=None, units=None)], orders=[0, 7, 14, 23])
    add("single.clash", [ax(T, 2)], [var("s", [], long_name="v", units=None), var("v", [0], units=None),
                                     var("w", [0], long_name="s", units=None)], orders="all")
    # numbered by an earlier conversion
    add("numbered", [ax(T, 2)], [var("v", [0], num=2), var("w", [0], num=2), var("u", [0], num=2)])
    add("numbered.big", [ax(T, 2)], [var("v", [0], num=1000), var("w", [0]), var("u", [0], num=0)])
    add("numbered.aux", [ax(T, 2), Z], [var("v", [0, 1], num=1), var("a", [0], auxnum=1), var("b", [0], auxnum=1)])
    add("numbered.ten", [ax(T, 2), Z], [var("v", [0, 1], num=[2, 10]), var("w", [0, 1], num=[10, 9]), var("u", [0, 1], num=[100, 1]),
                                        var("a", [0], auxnum=[3, 10]), var("b", [0], auxnum=[10, 11])], orders=[0, 30])
    # coordinate variables in the list
    add("coords", [ax(T, 2), Z], [var("v", [0, 1]), var("a", [0]), var("b", [1])], coords=True, orders=[0, 3])
    # axis values implied at regular steps
    add("1020", [ax(T, 4, kind="uniform"), ["ts", 2, dict(T[2], kind="sub", of=0, every=2)]],
        [var("v", [0], nan=[(1,)]), var("a", [1], nan=[(1,)], fill="sym")], orders="all")
    add("1020.free", [ax(T, 4), ["ts", 2, dict(T[2])]], [var("v", [0]), var("a", [1])])
    add("1020.two", [ax(T, 4, kind="uniform"), ["ts", 2, dict(T[2], kind="sub", of=0, every=2)],
                     ["tq", 1, dict(T[2], kind="sub", of=0, every=1)]],
        [var("v", [0]), var("a", [1]), var("b", [2]), var("c", [1])], orders=[0, 3, 9])
    add("1020.asked", [ax(T, 6, kind="uniform"), ["ts", 2, dict(T[2], kind="sub", of=0, every=3)]],
        [var("v", [0]), var("w", [0]), var("a", [1])], ffi=1020)
    add("1020.units", [ax(T, 4, kind="uniform"), ["ts", 2, {"units": "h", "kind": "sub", "of": 0, "every": 2}]],
        [var("v", [0]), var("a", [1])])
    # times
    add("time", [["time", 3, {"kind": "time"}]], [var("v", [0], nan=[(1,)])], orders="all")
    add("time.name", [["t", 3, {"kind": "time"}]], [var("v", [0]), var("w", [0])])
    add("time.second", [Z, ["time", 3, {"kind": "time"}]], [var("v", [0, 1])])
    add("time.2d", [["time", 3, {"kind": "time"}], Z], [var("v", [0, 1]), var("a", [0])])
    add("time.360", [["time", 2, {"kind": "time", "time_units": "days since 2000-02-27 12:00:00",
                                  "calendar": "360_day"}]], [var("v", [0])])
    add("time.2110", [["time", 2, {"kind": "time"}], Z], [var("v", [0, 1]), var("a", [0])], ffi=2110)
    # requested formats
    add("ask.1001", [T], [var("v", [0])], ffi=1001)
    add("ask.2010", [ax(T, 2), Z], [var("v", [0, 1]), var("a", [0])], ffi=2010)
    add("ask.2110", [ax(T, 2), ax(Z, 3)], [var("v", [0, 1], nan=[(1, 2)]), var("w", [0, 1]), var("a", [0])], ffi=2110)
    add("ask.2110.long", [ax(T, 2), ax(Z, 6)], [var("v", [0, 1])], ffi=2110)
    add("ask.2110.tall", [ax(T, 6), ax(Z, 2)], [var("v", [0, 1])], ffi=2110)
    add("ask.2310.long", [ax(T, 2), ax(Z, 6, kind="uniform")], [var("v", [0, 1])], ffi=2310)
    add("ask.2110.one", [ax(T, 2), ax(Z, 1)], [var("v", [0, 1])], ffi=2110)
    add("ask.2310", [ax(T, 2), ax(Z, 3, kind="uniform")], [var("v", [0, 1], nan=[(1, 2)]), var("w", [0, 1]),
                                                             var("a", [0], fill="sym")], ffi=2310)
    add("ask.2310.two", [T, Z], [var("v", [0, 1])], ffi=2310)
    add("ask.3010", [ax(T, 2), Z, ax(Y, 4)], [var("v", [0, 1, 2])], ffi=3010)
    add("ask.4010", [ax(T, 2), Z, Y, X], [var("v", [0, 1, 2, 3])], ffi=4010)
    # axis definitions
    add("axis.free4", [ax(T, 4), ax(Z, 4)], [var("v", [0, 1])])
    add("axis.lengths", [ax(T, 1), ax(Z, 1), ax(Y, 4, kind="uniform")], [var("v", [0, 1, 2])])
    add("axis.2d1", [ax(T, 3), ax(Z, 1)], [var("v", [0, 1])])
    # dimensions without coordinates, a fill value that is not a number
    add("axis.none", [["t", 3, {"kind": "none"}], ["z", 2, {"kind": "none"}]], [var("v", [0, 1]), var("a", [0])])
    add("fill.nan", [ax(T, 2)], [var("v", [0], fill=float("nan"), nan=[(1,)]), var("w", [0], fill=0, nan=[(0,)])])
    # sizes of one, subsets of an axis with other values in between, units on one of two axes only
    add("ones", [ax(T, 2), ax(Y, 1), ax(X, 1)], [var("v", [1, 0]), var("w", [1, 2]), var("o", [2])], orders="all")
    add("ones.3d", [ax(T, 2), ax(Y, 1), ax(X, 1)], [var("v", [0, 1]), var("w", [1, 2, 0]), var("a", [0])], orders=[0, 3])
    add("1020.three", [ax(T, 6, kind="uniform"), ["ts", 3, dict(T[2])]], [var("v", [0]), var("a", [1])], orders="all")
    for k, (a, b) in enumerate([("s", None), (None, "s")]):
        add("axes.nounits%d" % k, [ax(T, 2, units=a), ax(T, 2, units=b, kind="sub", of=0, every=1)], [var("v", [0]), var("w", [1])])
        add("1020.nounits%d" % k, [ax(T, 4, kind="uniform", units=a), ["ts", 2, {"units": b, "kind": "sub", "of": 0, "every": 2}]],
            [var("v", [0]), var("a", [1])])
    # arrays of single precision numbers and of integers; dates of numpy; values which are not numbers
    add("float32", [ax(T, 2)], [var("v", [0], dtype="f4", nan=[(0,), (1,)], fill=[-9999.99, 1e20, 9.969209968386869e36]),
                                var("w", [0], dtype="i4"), var("u", [0], dtype="f8", nan=[(1,)], fill=[9.969209968386869e36])])
    add("float32.2d", [ax(T, 2), ax(Z, 2)], [var("v", [0, 1], dtype="f4", nan=[(0, 1)], fill=[-9999.99, float("nan")]),
                                             var("a", [0], dtype="f4", nan=[(1,)], fill=[0.1])])
    add("time.numpy", [["time", 3, {"kind": "time", "numpy": True}]], [var("v", [0]), var("w", [0])])
    add("time.noleap", [["time", 2, {"kind": "time", "time_units": "days since 1600-02-27", "calendar": "noleap"}], Z],
        [var("v", [0, 1])])
    add("single.text", [ax(T, 2)], [var("v", [0]), var("s", [], concrete="station 7"),
                                    var("b", [], concrete="abc", what="bytes", units=None)], orders="all")
    add("single.date", [ax(T, 2)], [var("v", [0]), var("s", [], concrete=(2001, 2, 3, 4, 5, 6), what="date", units=None),
                                    var("r", [], concrete=(2001, 2, 30), what="date", calendar="360_day", units=None)])
    add("single.numpy", [ax(T, 2)], [var("v", [0]), var("s", [], concrete="2001-02-03", what="numpy date", units=None)])
    add("names.empty", [["t", 2, {"attrs": {"long_name": "", "units": 1}}]],
        [var("v", [0], long_name="", attrs={"long_name": "", "standard_name": "sn"}),
         var("w", [0], long_name="", units="", attrs={"long_name": ""}),
         var("u", [0], units=None, attrs={"units": 1})])
    # more variables, longer axes
    add("many", [ax(T, 2)], [var("v%d" % i, [0], fill="sym" if i % 4 == 0 else None, nan=[(i % 2,)] if i % 5 == 0 else [])
                             for i in range(12)], orders="ends")
    add("many.aux", [ax(T, 2), ax(Z, 3)], [var("v", [0, 1])] + [var("a%d" % i, [0]) for i in range(5)]
        + [var("b%d" % i, [1]) for i in range(3)] + [var("w%d" % i, [0, 1]) for i in range(3)],
        orders="ends")
    add("axis.12", [ax(T, 12, kind="uniform")], [var("v", [0], nan=[(0,), (11,)]), var("w", [0])])
    add("axis.12.free", [ax(T, 12)], [var("v", [0])])
    add("axis.12.2d", [ax(Z, 3), ax(T, 12, kind="uniform")], [var("v", [0, 1]), var("p", [1])])
    add("sets.many", [[n, 2, {"units": "s"}] for n in "abcdefg"],
        [var("v" + n, [i]) for i, n in enumerate("abcdefg")] + [var("w" + n, [i]) for i, n in enumerate("abcdefg")], orders="ends")
    add("time.before", [["time", 3, {"kind": "time", "starts": [-30.5, -0.25], "steps": [0.5, 30]}]], [var("v", [0])])
    add("time.seconds", [["time", 3, {"kind": "time", "time_units": "seconds since 1999-12-31 23:59:30",
                                      "starts": [0, 29, 30, -86400], "steps": [1, 86400]}]], [var("v", [0])])
    add("time.days", [["time", 2, {"kind": "time", "time_units": "days since 1970-01-01", "starts": [0, 11016.5, 17000],
                                   "steps": [0.25, 366]}], Z], [var("v", [0, 1]), var("a", [0])])
    # far more of everything, few of the values symbolic
    add("huge.1d", [ax(T, 150, kind="sparse")], [var("v", [0], sparse=37, nan=[(0,), (149,)], fill="sym"), var("w", [0], sparse=41)])
    add("huge.uniform", [ax(T, 120, kind="uniform")], [var("v", [0], sparse=37)])
    add("huge.2d", [ax(T, 11, kind="sparse"), ax(Z, 40, kind="sparse")], [var("v", [0, 1], sparse=67, nan=[(10, 39)]), var("a", [0], sparse=5),
                                                                         var("b", [1], sparse=23)], orders="ends")
    add("huge.2110", [ax(T, 3), ax(Z, 60, kind="sparse")], [var("v", [0, 1], sparse=67, nan=[(2, 59)]), var("a", [0])], ffi=2110)
    add("huge.4d", [ax(T, 3), ax(Z, 2), ax(Y, 11, kind="uniform"), ax(X, 4)], [var("v", [0, 1, 2, 3], sparse=29)])
    add("huge.vars", [ax(T, 2)], [var("v%d" % i, [0], sparse=2 if i % 10 == 0 else 99, fill="sym" if i == 31 else None,
                                      nan=[(1,)] if i in (3, 31) else []) for i in range(35)], orders="ends")
    add("huge.sets", [["d%d" % i, 2, {"units": "s"}] for i in range(12)],
        [var("v%d" % i, [i], sparse=2 if i % 4 == 0 else 99) for i in range(12)], orders="ends")
    # variables of the same name
    add("same.names", [ax(T, 2), ax(Z, 3)], [var("v", [0]), var("v", [1]), var("v", [0])], orders="all", dup=True)
    add("same.names.2d", [ax(T, 2), ax(Z, 3)], [var("v", [0, 1]), var("v", [0]), var("v", [1])], orders="all", dup=True)
    if tier == "thorough":
        add("1d.five", [ax(T, 5)], [var("v", [0], nan=[(1,), (2,), (4,)], fill="sym"), var("w", [0])])
        add("axes.value3", [ax(T, 3), ax(T, 3)], [var("v", [0]), var("w", [1])], orders="all")
        add("axes.three", [ax(T, 2), ax(T, 2), ax(T, 2)], [var("v", [0]), var("w", [1]), var("u", [2])], orders="all")
        add("axes.2d", [ax(T, 2), ax(T, 2), Z, ax(Z)], [var("v", [0, 2]), var("w", [1, 3]), var("u", [0, 3])])
        add("2d.aux.all", [ax(T, 2), Z], [var("v", [0, 1]), var("a", [0]), var("b", [1]), var("s", [])], orders="all")
        add("3d.all", [ax(T, 2), Z, Y], [var("p", [1, 2]), var("v", [0, 1, 2]), var("q", [0, 2]), var("b", [2])],
            orders="all")
        add("numbered4", [ax(T, 2)], [var("v", [0], num=3), var("w", [0], num=3), var("u", [0], num=3), var("r", [0])])
        add("1020.6", [ax(T, 6), ["ts", 3, dict(T[2])]], [var("v", [0]), var("a", [1])])
        add("1020.nine", [ax(T, 9, kind="uniform"), ["ts", 3, dict(T[2], kind="sub", of=0, every=3)]],
            [var("v", [0]), var("a", [1])])
        add("axis.free5", [ax(T, 5), ax(Z, 5)], [var("v", [0, 1])])
        add("ask.2310.free", [ax(T, 3), ax(Z, 4, kind="uniform")], [var("v", [0, 1]), var("a", [0]), var("b", [0])],
            ffi=2310)
        add("time.4d", [["time", 2, {"kind": "time"}], Z, Y, X], [var("v", [0, 1, 2, 3]), var("a", [0])])
    return S


def names(tier):
    """scenarios whose variables can be told apart by their names"""
    return [n for n, s in scenarios(tier).items() if not s[2].get("dup")]


def orders(n, o):
    if o == "all":
        return list(itertools.permutations(range(n)))
    if o == "ends":
        return [tuple(range(n)), tuple(range(n))[::-1]]
    if not o:
        return [tuple(range(n))]
    perms = list(itertools.permutations(range(n)))
    return [perms[i] for i in o]
