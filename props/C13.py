"""C13 - metadata queries report what the header says."""
import re

from props import nad, refna, shapes, common
from props import C02

BOUNDS = shapes.BOUND_TEXT + ("; name splitting: names of 1-6 (thorough 8) characters over blanks, round brackets, letters and "
                              "punctuation (every position symbolic)")
ASSUMPTIONS = ["names with an empty bracket pair () are left out (which group is the last one is a matter of taste)"]



def queries(sx, ffi, kw):
    nappy = sx.nappy()
    d = nad.build(sx, ffi, **dict(kw, nobrackets=True))
    n, lines = C02.build(sx, d, "%s")
    sx.put("i.na", "\n".join(lines) + "\n")
    f = nappy.openNAFile("i.na")
    sx.observe(f.VNAME)
    fields(sx, f, d, n)
    check_names(sx, f, d, None)


def fields(sx, f, d, n):
    ffi = d["FFI"]
    eq = sx.check_eq
    eq(f.getNumHeaderLines(), n, "getNumHeaderLines")
    eq(f.getFFI(), ffi, "getFFI")
    eq(f.getOriginator().strip(), d["ONAME"].strip(), "getOriginator")
    eq(f.getOrganisation().strip(), d["ORG"].strip(), "getOrganisation")
    eq(f.getOrg().strip(), d["ORG"].strip(), "getOrg")
    eq(f.getSource().strip(), d["SNAME"].strip(), "getSource")
    eq(f.getMission().strip(), d["MNAME"].strip(), "getMission")
    eq(list(f.getVolumes()), [d["IVOL"], d["NVOL"]], "getVolumes")
    eq([list(x) for x in f.getFileDates()], [d["DATE"], d["RDATE"]], "getFileDates")
    eq([c.strip() for c in f.getNormalComments()], [c.strip() for c in d["NCOM"]], "getNormalComments")
    eq([c.strip() for c in f.getSpecialComments()], [c.strip() for c in d["SCOM"]], "getSpecialComments")
    for k in ("ONAME", "IVOL", "VSCAL", "VMISS", "NV", "FFI"):
        eq(f[k], getattr(f, k), "item access " + k)
    for k in ("VNAME", "SCOM", "NVOL", "DATE", "NLHEAD"):
        eq(f[k], n if k == "NLHEAD" else d[k], "item access " + k)
    eq(f["NOSUCH"], "Item 'NOSUCH' not found.", "item access to an unknown name")
    if "NAUXV" not in d:
        eq(f["ANAME"], None, "item access to an absent name")


def check_names(sx, f, d, split):
    ffi = d["FFI"]
    eq = sx.check_eq
    if split is None:
        split = lambda s: (s, None)
    vs = f.getVariables()
    eq(len(vs), d["NV"], "number of variables")
    for i in range(d["NV"]):
        nm, un = split(d["VNAME"][i])
        eq(f.getScaleFactor(i), d["VSCAL"][i], "scale factor %d" % i)
        eq(f.getMissingValue(i), d["VMISS"][i], "missing value %d" % i)
        for how, t in (("list", vs[i]), ("single", f.getVariable(i))):
            sx.check(len(t) == 4, "variable %d has four entries" % i)
            eq(t[0], nm.strip(), "variable name %d (%s)" % (i, how))
            eq(t[1], un, "variable units %d (%s)" % (i, how))
            eq(t[2], d["VMISS"][i], "variable missing value %d (%s)" % (i, how))
            eq(t[3], d["VSCAL"][i], "variable scale factor %d (%s)" % (i, how))
    iv = f.getIndependentVariables()
    eq(len(iv), d["NIV"], "number of axes")
    for i in range(d["NIV"]):
        nm, un = split(d["XNAME"][i])
        for t in (iv[i], f.getIndependentVariable(i)):
            eq(t[0], nm.strip(), "axis name %d" % i)
            eq(t[1], un, "axis units %d" % i)
    na = d.get("NAUXV", 0)
    av = f.getAuxVariables()
    eq(len(av), na, "number of auxiliary variables")
    nreal = na - d.get("NAUXC", 0)
    for i in range(na):
        nm, un = split(d["ANAME"][i])
        miss = d["AMISS"][i]
        for t in (av[i], f.getAuxVariable(i)):
            eq(t[0], nm.strip(), "aux name %d" % i)
            eq(t[1], un, "aux units %d" % i)
            eq(t[2] if i < nreal else t[2].strip(), miss if i < nreal else miss.strip(), "aux missing %d" % i)
            if i < nreal:
                eq(t[3], d["ASCAL"][i], "aux scale %d" % i)
            else:
                sx.check(t[3] is None, "character aux variable has no scale factor")


def callback(sx, ffi, kw, how):
    """an arbitrary splitting function replaces the rule"""
    nappy = sx.nappy()
    d = nad.build(sx, ffi, **kw)
    n, lines = C02.build(sx, d, "%s")
    sx.put("i.na", "\n".join(lines) + "\n")
    if how == "const":
        a = sx.str("cn", 3)
        b = sx.str("cu", 2)
        fn = lambda s: (a, b)
    elif how == "swap":
        fn = lambda s: (s[len(s) // 2:], s[:len(s) // 2])
    else:
        fn = lambda s: ("n:" + s, None)
    f = nappy.openNAFile("i.na", var_and_units_callback=fn)
    sx.observe(f.VNAME)
    check_names(sx, f, d, fn)


def oracle(sx, s):
    """(name text without blanks, units) by the last bracketed group"""
    n = len(s)
    for i in range(n - 1, -1, -1):
        if s[i] == "(":
            for j in range(i + 1, n):
                if s[j] == ")":
                    return s[:i] + s[j + 1:], s[i + 1:j]
    return s, None


def squeeze(s):
    return "".join([c for c in s if c != " "])


def split(sx, n, where):
    nappy = sx.nappy()
    name = sx.str("name", n)
    sx.assume("()" not in name)
    kw = dict(nobrackets=True)
    if where == "V":
        d = nad.build(sx, 1001, nv=2, m=1, **kw)
        d["VNAME"][1] = name
    elif where == "X":
        d = nad.build(sx, 2010, m=1, nx=(1,), **kw)
        d["XNAME"][0] = name
    else:
        d = nad.build(sx, 1010, m=1, naux=2, **kw)
        d["ANAME"][1] = name
    nl, lines = C02.build(sx, d, "%s")
    sx.put("i.na", "\n".join(lines) + "\n")
    f = nappy.openNAFile("i.na")
    if where == "V":
        t = f.getVariable(1)
        o = f.getVariable(0)
        other = d["VNAME"][0]
    elif where == "X":
        t = f.getIndependentVariable(0)
        o = f.getIndependentVariable(1)
        other = d["XNAME"][1]
    else:
        t = f.getAuxVariable(1)
        o = f.getAuxVariable(0)
        other = d["ANAME"][0]
    sx.observe([t[0], t[1]])
    want, units = oracle(sx, name)
    if units is None:
        sx.check(t[1] is None, "a name without brackets has no units")
        sx.check_eq(t[0], want.strip(), "name is kept")
    else:
        sx.check(t[1] is not None, "the bracketed group gives the units")
        if t[1] is not None:
            sx.check_eq(t[1].strip(), units.strip(), "units are the text of the last bracketed group")
            sx.check_eq(squeeze(t[0]), squeeze(want), "the rest of the text is the name")
            sx.check_eq(t[0], t[0].strip(), "no blanks around the name")
    sx.check_eq(o[0], other, "the other name")
    sx.check(o[1] is None, "the other name has no units")


def by(sep):
    """the splitting done by PATTERNS[sep], by hand"""
    def f(s):
        n = len(s)
        if sep == "[":
            for i in range(n - 1, -1, -1):
                if s[i] == "[":
                    for j in range(i + 2, n):
                        if s[j] == "]":
                            return s[:i] + s[j + 1:], s[i + 1:j]
            return s, None
        for i in range(n):
            if s[i] == ",":
                return s[:i], s[i + 1:]
        return s, None
    return f


PATTERNS = {"[": r"^(.*)\[(.+?)\](.*)$", ",": r"^([^,]*),(.*)()$"}


def pattern(sx, n, sep):
    """a pattern replaces the rule, for this file alone and from then on"""
    nappy = sx.nappy()
    name = sx.str("name", n)
    sx.assume("()" not in name)
    # what no-one reads twice: [[ a] or [a]] (which group is meant?)
    sx.assume("[]" not in name)
    d = nad.build(sx, 1010, nv=2, m=1, naux=2, nobrackets=True)
    d["VNAME"][1] = name
    d["ANAME"][0] = name
    nl, lines = C02.build(sx, d, "%s")
    sx.put("i.na", "\n".join(lines) + "\n")
    f = nappy.openNAFile("i.na")
    g = nappy.openNAFile("i.na")
    before = f.getVariable(1)
    for bad in ("(.*)", None, 3):
        try:
            f.var_and_units_pattern = bad
            sx.check(False, "a pattern which is none is refused")
        except TypeError:
            pass
    same(sx, f.getVariable(1), before, "refused patterns change nothing")
    f.var_and_units_pattern = re.compile(PATTERNS[sep])
    want, units = by(sep)(name)
    for what, t in (("variable", f.getVariable(1)), ("of the list", f.getVariables()[1]), ("aux", f.getAuxVariable(0))):
        if units is None:
            sx.check(t[1] is None, what + ": no units without the mark")
            sx.check_eq(t[0], want.strip(), what + ": name is kept")
        else:
            sx.check(t[1] is not None, what + ": units by the pattern")
            if t[1] is not None:
                sx.check_eq(t[1].strip(), units.strip(), what + ": units by the pattern")
                sx.check_eq(squeeze(t[0]), squeeze(want), what + ": name by the pattern")
    same(sx, g.getVariable(1), before, "the other file keeps its rule")
    h = nappy.openNAFile("i.na")
    same(sx, h.getVariable(1), before, "files opened later have the usual rule")
    sx.observe([before[0], before[1]])


def same(sx, a, b, msg):
    sx.check((a[1] is None) == (b[1] is None), msg + ": units or none")
    sx.check_eq(a[0], b[0], msg + ": name")
    if a[1] is not None and b[1] is not None:
        sx.check_eq(a[1], b[1], msg + ": units")


def cases(tier):
    out = []
    for i, (name, ffi, kw) in enumerate(shapes.shapes(tier)):
        out.append({"name": name, "fn": "queries", "params": {"ffi": ffi, "kw": kw}})
        hows = ["const", "swap", "prefix"]
        out.append({"name": "%s.cb" % name, "fn": "callback",
                    "params": {"ffi": ffi, "kw": kw, "how": hows[i % 3]}})
    for w in ("V", "X", "A"):
        top = {"V": 6, "X": 4, "A": 5} if tier == "quick" else {"V": 8, "X": 7, "A": 7}
        for n in range(1, top[w] + 1):
            out.append({"name": "split.%s%d" % (w, n), "fn": "split", "params": {"n": n, "where": w},
                        "weight": n})
    for sep in PATTERNS:
        for n in range(1, 5 if tier == "quick" else 7):
            out.append({"name": "pattern.%s%d" % (sep, n), "fn": "pattern", "params": {"n": n, "sep": sep}, "weight": n})
    return out
