"""C29 - command line options reach the conversion unchanged."""
import sys

NUMERIC = False
NAPPY_MODULES = ["nappy.script.na2nc", "nappy.script.nc2na", "nappy.script.nc2csv"]
BOUNDS = ("the three commands with 0-3 options chosen among all documented ones in any order, repeated or not, and with "
          "all options at once in several orders; every text value of 1-3 symbolic characters (also beginning with a "
          "dash), lists of 1-3 items of 1-2 symbolic characters, numbers any integer 0-9999; input file present or missing, arguments "
          "passed or taken from the command line, unknown options, odd pairs")
ASSUMPTIONS = ["the conversion functions are replaced by stand-ins that record their arguments",
               "the arguments hold options only (no stray words)"]


class Stop(Exception):
    pass


DEFAULTS = {
    "na2nc": {"na_file": None, "nc_file": None, "mode": "w", "variables": "all", "aux_variables": "all",
              "global_attributes": [], "rename_variables": {}, "time_units": None, "time_warning": True},
    "nc2na": {"nc_file": None, "na_file": None, "var_ids": None, "requested_ffi": None, "float_format": "%.10g",
              "delimiter": "    ", "size_limit": None, "exclude_vars": [], "na_items_to_override": {},
              "only_return_file_names": False, "no_header": False, "annotation": False},
}
# option: (argument, kind of value)
OPTIONS = {
    "na2nc": {"-o": ("nc_file", "text"), "-m": ("mode", "mode"), "-g": ("global_attributes", "pairs"),
              "-r": ("rename_variables", "dict"), "-t": ("time_units", "text"), "-n": ("time_warning", False)},
    "nc2na": {"-o": ("na_file", "text"), "-v": ("var_ids", "list"), "--ffi": ("requested_ffi", "int"),
              "-f": ("float_format", "text"), "-d": ("delimiter", "delim"), "-l": ("size_limit", "int"),
              "-e": ("exclude_vars", "list"), "--overwrite-metadata": ("na_items_to_override", "dict"),
              "--names-only": ("only_return_file_names", True), "--no-header": ("no_header", True),
              "--annotated": ("annotation", True)},
}
OPTIONS["nc2csv"] = {k: v for k, v in OPTIONS["nc2na"].items() if k != "-d"}
DEFAULTS["nc2csv"] = dict(DEFAULTS["nc2na"], delimiter=",")


class Calls:
    """conversion functions that record what they are asked for"""

    def __init__(self, nappy, csv=False):
        self.nappy = nappy
        self.calls = []

    def __enter__(self):
        n = self.nappy
        self.saved = {k: getattr(n, k) for k in ("convertNAToNC", "convertNCToNA", "convertNCToCSV")}
        order = {"convertNAToNC": ["na_file", "nc_file", "mode", "variables", "aux_variables", "global_attributes", "time_units",
                                   "time_warning", "rename_variables"],
                 "convertNCToNA": ["nc_file", "na_file", "var_ids", "na_items_to_override", "only_return_file_names",
                                   "exclude_vars", "requested_ffi", "delimiter", "float_format", "size_limit", "annotation",
                                   "no_header"],
                 "convertNCToCSV": ["nc_file", "csv_file"]}

        def record(name):
            def f(*args, **kw):
                d = dict(zip(order[name], args))
                for k in kw:
                    d[k] = kw[k]
                if name == "convertNCToCSV":
                    d["na_file"] = d.pop("csv_file", None)
                    d["delimiter"] = ","
                    if d["na_file"] is None:
                        d["na_file"] = "(default).csv"
                self.calls.append((name, d))
                return "file.nc" if name == "convertNAToNC" else ["a.na", "b.na"]
            return f
        for k in self.saved:
            setattr(n, k, record(k))
        return self

    def __exit__(self, *a):
        for k, v in self.saved.items():
            setattr(self.nappy, k, v)
        return False


def value(sx, name, kind):
    """(text given, value expected)"""
    if kind == "text":
        v = sx.str(name, 3, first=sx.TEXT, last=sx.TEXT)
        return v, v
    if kind == "delim":
        v = sx.str(name, 2, mask=sx.mask(" ,;-\t|"), first=sx.mask(" ,;-\t|"), last=sx.mask(" ,;-\t|"))
        return v, v
    if kind == "mode":
        v = sx.pick(name, ["w", "a"])
        return v, v
    if kind == "int":
        v = sx.int(name, 0, 9999)
        return "%d" % v, v
    mask = sx.TEXT & ~sx.mask(",")
    n = 2 * sx.choose(name + "n", 1, 2) if kind in ("pairs", "dict") else sx.choose(name + "n", 1, 3)
    items = [sx.str("%s.%d" % (name, i), 1 + i % 2, mask=mask, first=mask, last=mask) for i in range(n)]
    text = ",".join(items)
    if kind == "list":
        return text, items
    pairs = [[items[i], items[i + 1]] for i in range(0, n, 2)]
    if kind == "dict":
        for i in range(len(pairs)):
            for j in range(i):
                sx.assume(sx.neg(sx.eq(pairs[i][0], pairs[j][0])))
    return text, pairs


def same(sx, key, got, want):
    """an argument as expected"""
    if key in ("rename_variables", "na_items_to_override"):
        if not want:
            return not got
        return len(got) == len(want) and sx.all([sx.any([sx.eq(list(x), w) for x in got.items()]) for w in want])
    if key == "global_attributes":
        if not want:
            return not got
        return sx.eq([list(x) for x in got], want)
    if key in ("var_ids", "exclude_vars") and want:
        return sx.eq(list(got), want)
    if key in ("time_warning", "only_return_file_names", "no_header", "annotation"):
        return bool(got) == want
    if key in ("exclude_vars",) or want is None:
        return not got
    if key in ("requested_ffi", "size_limit"):
        return not isinstance(got, str) and sx.eq(got, want)
    return sx.eq(got, want)


def call(sx, cmd, args, how="args"):
    """(arguments of the conversion or None if the program ended, result)"""
    nappy = sx.nappy()
    mod = sx.nappy("nappy.script." + cmd)
    fn = getattr(mod, cmd)
    saved = sys.argv
    with Calls(nappy) as c:
        try:
            if how == "argv":
                sys.argv = [cmd] + args
                r = fn()
            else:
                r = fn(args)
        except SystemExit:
            sx.check(not c.calls, "no conversion when the program ends")
            return None, None
        finally:
            sys.argv = saved
    sx.check(len(c.calls) == 1, "one conversion")
    return c.calls[0][1], r


def give(sx, args, opt, text, joined):
    if text is None:
        args.append(opt)
    elif joined:
        args.append(opt + ("=" if opt[1] == "-" else "") + text)
    else:
        args += [opt, text]


def check(sx, cmd, got, want, given):
    for k, w in want.items():
        if cmd == "nc2csv" and k == "na_file" and w is None:
            sx.check(got.get(k) in (None, "(default).csv"), "default output name")
            continue
        if cmd == "na2nc" and k == "nc_file" and w is None:
            continue
        g = got.get(k, DEFAULTS[cmd][k])
        if k in ("variables", "aux_variables"):
            sx.check(g in (None, "all"), "all variables")
            continue
        sx.check(same(sx, k, g, w), "argument %s" % k)
    sx.check(set(got) <= set(want), "no other arguments")


def options(sx, cmd, n, how="args", order=None, joined=False):
    args, want = [], dict(DEFAULTS[cmd])
    infile = sx.str("infile", 3, first=sx.ALPHA)
    inopt = "-i"
    want["na_file" if cmd == "na2nc" else "nc_file"] = infile
    table = OPTIONS[cmd]
    names = list(table)
    at = sx.choose("at", 0, n) if order is None else 0
    seq = order if order is not None else range(n)
    for i in seq:
        if order is None:
            if i == at:
                give(sx, args, inopt, infile, joined)
            opt = sx.pick("o%d" % i, names)
        else:
            opt = names[i]
        key, kind = table[opt]
        if isinstance(kind, bool):
            give(sx, args, opt, None, joined)
            want[key] = kind
        else:
            text, v = value(sx, "v%d" % i, kind)
            give(sx, args, opt, text, joined)
            want[key] = v
    if order is not None or at == n:
        give(sx, args, inopt, infile, joined)
    before = list(args)
    got, r = call(sx, cmd, args, how)
    sx.check(got is not None, "converted")
    sx.check_eq(args, before, "arguments unchanged")
    sx.observe([[k, got[k]] for k in sorted(got) if k not in ("na_items_to_override", "rename_variables")])
    check(sx, cmd, got, want, args)
    sx.check(r == ("file.nc" if cmd == "na2nc" else ["a.na", "b.na"]), "result of the conversion returned")


def refused(sx, cmd, kind):
    """usage information instead of a conversion"""
    infile = sx.str("infile", 3, first=sx.ALPHA)
    names = list(OPTIONS[cmd])
    valued = [o for o in names if not isinstance(OPTIONS[cmd][o][1], bool)]
    args = ["-i", infile]
    if kind == "missing":
        args = []
    elif kind == "missing.others":
        opt = sx.pick("o", names)
        k = OPTIONS[cmd][opt][1]
        args = []
        give(sx, args, opt, None if isinstance(k, bool) else value(sx, "v", k)[0], False)
    elif kind == "unknown":
        known = {"na2nc": "iomvagtnr", "nc2na": "iovfdle", "nc2csv": "iovfdle"}[cmd]
        letter = sx.str("l", 1, mask=sx.ALPHA & ~sx.mask(known), first=sx.ALPHA)
        args.append("-" + letter)
    elif kind == "unknown.first":
        args = ["-" + sx.pick("l", ["z", "X", "9"])] + args
    elif kind == "unknown.long":
        w = sx.str("l", 3, mask=sx.ALPHA, first=sx.ALPHA)
        if cmd != "na2nc":
            sx.assume(sx.neg(sx.eq(w, "ffi")))
            sx.assume(sx.neg(sx.eq(w, "ove")))
        args.append("--" + w)
    elif kind == "no.value":
        args.append(sx.pick("o", valued))
    elif kind == "fixed":           # the delimiter of nc2csv
        args += ["-d", sx.str("d", 1, first=sx.TEXT, last=sx.TEXT)]
    ended = False
    try:
        got, r = call(sx, cmd, args)
        ended = got is None
    except (SystemExit, Exception):
        ended = True
    sx.check(ended, "refused")


def odd(sx, cmd, opt, n):
    """a list of pairs with an odd number of items is no list of pairs"""
    mask = sx.TEXT & ~sx.mask(",")
    text = ",".join([sx.str("i%d" % i, 1, mask=mask, first=mask, last=mask) for i in range(n)])
    ended = False
    try:
        got, r = call(sx, cmd, ["-i", "in.x", opt, text])
    except Exception as e:
        ended = type(e).__name__ != "Violation"
        if not ended:
            raise
    sx.check(ended, "refused")


def cases(tier):
    out = []

    def add(name, fn="options", **p):
        out.append({"name": name, "fn": fn, "params": p})
    for cmd in ("na2nc", "nc2na", "nc2csv"):
        k = len(OPTIONS[cmd])
        for n in range(3 if tier == "quick" else 4):
            add("%s.%d" % (cmd, n), cmd=cmd, n=n)
        add("%s.1.argv" % cmd, cmd=cmd, n=1, how="argv")
        add("%s.1.joined" % cmd, cmd=cmd, n=1, joined=True)
        add("%s.all" % cmd, cmd=cmd, n=0, order=list(range(k)))
        add("%s.all.back" % cmd, cmd=cmd, n=0, order=list(range(k))[::-1], how="argv")
        add("%s.all.shuffled" % cmd, cmd=cmd, n=0, order=[(5 * i + 3) % k for i in range(k)] if k % 5 else
            [(3 * i + 1) % k for i in range(k)])
        for kind in ("missing", "missing.others", "unknown", "unknown.first", "unknown.long", "no.value"):
            add("%s.%s" % (cmd, kind), "refused", cmd=cmd, kind=kind)
        for opt in ("-g", "-r", "--overwrite-metadata"):
            if opt in OPTIONS[cmd]:
                for n in (1, 3):
                    add("%s.odd.%s.%d" % (cmd, opt, n), "odd", cmd=cmd, opt=opt, n=n)
    add("nc2csv.delimiter", "refused", cmd="nc2csv", kind="fixed")
    return out
