"""C26 - header text survives conversion to NetCDF attributes and back."""
import os

from props import common, ncd, ncio, naconv

NUMERIC = True
NAPPY_MODULES = ncd.NAPPY_MODULES
BOUNDS = ("originator, organisation, source and mission of 1-8 symbolic characters; 0-4 special and 0-4 normal comment "
          "lines of 0-6 symbolic characters each, with blank lines between and leading blanks; dates and volume numbers "
          "symbolic; user attributes of symbolic text; formats 1001, 1010, 2010 and 3010; one or two round trips, through "
          "array objects and through NetCDF and NASA Ames files")
ASSUMPTIONS = ["the NetCDF library is replaced by an in-memory store for the cases with files",
               "user attributes named like an attribute made from the header are replaced and not covered",
               "the original lines are those returned by the reader (C02)"]
NONE = os.path.join(os.path.dirname(os.path.abspath(__file__)), "data", "none.ini")   # no locally configured items


def text(sx, name, n, inner=None):
    if n > 20:
        return common.long_text(sx, name, n)
    return sx.str(name, n, first=inner or sx.EDGE, last=inner or sx.EDGE)


def lines(sx, name, spec):
    """lines of comments: a number is the length of a symbolic line, a text stands for itself"""
    out = []
    for i, n in enumerate(spec):
        if isinstance(n, str):
            if n.startswith("+"):           # leading blanks
                out.append("  " + sx.str("%s%d" % (name, i), int(n)))
            else:
                out.append(n)
        elif n > 20:
            out.append(common.long_text(sx, "%s%d" % (name, i), n))
        elif n:
            out.append(sx.str("%s%d" % (name, i), n))
        else:
            out.append("")
    return out


def timeless(ls):
    return [l for l in ls if not (len(l) > 20 and ("nappy-" in l))]


def full(ls):
    return [l for l in ls if l.strip()]


def has_line(sx, w, ls):
    return sx.any([sx.eq(l, w) for l in ls if len(l) == len(w)])


def in_order(sx, want, got, what):
    """want is a subsequence of got: the solver decides over all alignments"""
    # ok[j]: the first i lines of want are found within got[:j]
    ok = [True] * (len(got) + 1)
    for w in want:
        nxt = [False]
        for j, g in enumerate(got):
            here = sx.all([ok[j], sx.eq(g, w)]) if len(g) == len(w) else False
            nxt.append(sx.any([nxt[j], here]))
        ok = nxt
    sx.check(ok[-1], what)


def contains(sx, whole, part):
    n, k = len(whole), len(part)
    return sx.any([sx.eq(whole[i:i + k], part) for i in range(n - k + 1)])


def attributes(sx, rec, glob, user):
    """the header in the global attributes"""
    keys = [k for k, v in glob]
    sx.check(len(set(keys)) == len(keys), "attributes named once")
    d = dict(glob)
    sx.check(contains(sx, d["institution"], rec["ONAME"]), "originator in the attributes")
    sx.check(contains(sx, d["institution"], rec["ORG"]), "organisation in the attributes")
    sx.check_eq(d["source"], rec["SNAME"], "source in the attributes")
    sx.check_eq(d["title"], rec["MNAME"], "mission in the attributes")
    sx.check_eq(list(d["first_valid_date_of_data"]), list(rec["DATE"]), "date of the data")
    sx.check(d["history"].startswith("%.4d-%.2d-%.2d" % tuple(rec["RDATE"])), "revision date")
    sx.check_eq([d["total_files_in_set"], d["file_number_in_set"]], [rec["NVOL"], rec["IVOL"]], "volume numbers")
    got = d["comment"].split("\n")
    in_order(sx, full(rec["SCOM"]) + full(rec["NCOM"]), got, "comments in the attributes")
    at = [keys.index(k) for k, v in user]
    sx.check(at == sorted(at), "user attributes in order")
    for k, v in user:
        sx.check_eq(d[k], v, "user attribute %s" % k)


def back(sx, rec, d, what, own):
    for key in ("ONAME", "ORG", "SNAME", "MNAME"):
        sx.check_eq(d[key], rec[key], "%s: %s" % (what, key))
    sx.check(d["NSCOML"] == len(d["SCOM"]) and d["NNCOML"] == len(d["NCOM"]), what + ": number of comment lines")
    in_order(sx, full(rec["SCOM"]), d["SCOM"], what + ": special comments")
    in_order(sx, full(rec["NCOM"]), d["NCOM"], what + ": normal comments")
    if own:
        for l in full(rec["SCOM"]):
            sx.check(sx.neg(has_line(sx, l, d["NCOM"])), what + ": special comments in their own section only")
        for l in full(rec["NCOM"]):
            sx.check(sx.neg(has_line(sx, l, d["SCOM"])), what + ": normal comments in their own section only")


def prepare(sx, scom, ncom, head=(3, 2, 4, 1), ffi=1001, kw=None, distinct=False, ints=True):
    kw = dict(kw or dict(nv=1, m=2), ints=ints)
    extra = {k: text(sx, "h" + k, n) for k, n in zip(("ONAME", "ORG", "SNAME", "MNAME"), head)}
    d = naconv.contents(sx, ffi, kw, SCOM=lines(sx, "s", scom), NCOM=lines(sx, "n", ncom), **extra)
    if ints:
        d["RDATE"] = [sx.int("ry", 1, 9999), sx.int("rm", 1, 12), sx.int("rd", 1, 31)]
    if distinct:
        for a in full(d["SCOM"]):
            for b in full(d["NCOM"]):
                if len(a) == len(b):
                    sx.assume(sx.neg(sx.eq(a, b)))
    naconv.put(sx, d)
    return naconv.values(sx.nappy())


def roundtrip(sx, scom, ncom, head=(3, 2, 4, 1), user=(), ffi=1001, kw=None, times=1, distinct=False):
    nappy = sx.nappy()
    na_to_xarray = sx.nappy("nappy.nc_interface.na_to_xarray")
    xarray_to_na = sx.nappy("nappy.nc_interface.xarray_to_na")
    rec = prepare(sx, scom, ncom, head, ffi, kw, distinct)
    user = [(k, sx.str("u" + k, 3)) for k in user]
    before = list(user)
    c = na_to_xarray.NADictToXarrayObjects(nappy.openNAFile("in.na"), global_attributes=user)
    prim, aux, glob = c.convert()
    sx.check(len(user) == len(before), "attributes of the caller unchanged")
    attributes(sx, rec, glob, before)
    sx.observe([[k for k, v in glob], [v for k, v in glob if k in ("institution", "title", "comment")]])
    for i in range(times):
        outs = xarray_to_na.XarrayToNA(prim + aux, global_attributes=glob).convert()
        sx.check(len(outs) == 1, "one output")
        d = outs[0][0]
        sx.observe([d["SCOM"], timeless(d["NCOM"])])
        back(sx, rec, d, "round trip %d" % (i + 1), distinct)
        for k, v in before:
            sx.check(has_line(sx, "%s:   %s" % (k, v), d["NCOM"]), "user attribute %s in the comments" % k)
        if i + 1 < times:
            # what the next conversion starts from
            nappy.openNAFile("next%d.na" % i, "w", na_dict=d).write(float_format="%.17g")
            c = na_to_xarray.NADictToXarrayObjects(nappy.openNAFile("next%d.na" % i))
            prim, aux, glob = c.convert()


def files(sx, scom, ncom, head=(3, 2, 4, 1), ffi=1001, kw=None, user=(), distinct=False):
    nappy = sx.nappy()
    rec = prepare(sx, scom, ncom, head, ffi, kw, distinct, ints=False)
    user = [(k, sx.str("u" + k, 3)) for k in user]
    saved = os.environ.get("NAPPY_LOCAL_ATTRIBUTES")
    os.environ["NAPPY_LOCAL_ATTRIBUTES"] = NONE
    try:
        with ncio.Store() as st:
            nappy.convertNAToNC("in.na", "mid.nc", global_attributes=user)
            attributes(sx, rec, list(st.files["mid.nc"].attrs.items()), user)
            names = nappy.convertNCToNA("mid.nc", "out.na")
    finally:
        if saved is None:
            del os.environ["NAPPY_LOCAL_ATTRIBUTES"]
        else:
            os.environ["NAPPY_LOCAL_ATTRIBUTES"] = saved
    sx.check(names == ["out.na"], "one file")
    d = naconv.values(nappy, "out.na")
    sx.observe([d["SCOM"], timeless(d["NCOM"])])
    back(sx, rec, d, "written", distinct)


def cases(tier):
    out = []

    def add(name, fn="roundtrip", **p):
        out.append({"name": name, "fn": fn, "params": p})
    top = 4 if tier == "quick" else 7
    for ns in range(top):
        for nn in range(top):
            add("lines.%d.%d" % (ns, nn), scom=[2 + i for i in range(ns)], ncom=[4 - i for i in range(nn)][:4])
    for h in ((1, 1, 1, 1), (8, 5, 2, 3), (2, 4, 1, 8), (5, 1, 8, 2)):
        add("head.%d%d%d%d" % h, scom=[2], ncom=[1], head=h)
    add("same.lengths", scom=[2, 2, 2], ncom=[2, 2])
    add("own", scom=[2, 3], ncom=[3, 2], distinct=True)
    add("own.blank", scom=[2, 0, 1], ncom=[0, 1, 2], distinct=True)
    add("blank.inside", scom=[1, 0, 2], ncom=[2, 0, 0, 1])
    add("blank.ends", scom=[0, 1, 0], ncom=[0, 2, 0])
    add("blank.only", scom=[0], ncom=[0, 0])
    add("blank.spaces", scom=[2, "   ", 1], ncom=["  ", 2])
    add("indented", scom=["+2", 1], ncom=[1, "+3", "+1"])
    add("long", scom=[6, 5, 4, 3], ncom=[6, 6, 5])
    add("long.lines", scom=[90], ncom=[133])
    add("long.line", scom=[], ncom=[260])
    add("long.head", scom=[2], ncom=[1], head=(90, 135, 81, 120))
    add("many", scom=[2] * 12, ncom=[2, 3] * 7)
    add("many.more", scom=[1] + ["special line %d" % i for i in range(45)] + [1], ncom=["normal line %d" % i for i in range(120)] + [2])
    add("very.long", scom=["word " + "x" * 700], ncom=["a word " * 300 + "z", 2])
    add("words", scom=["Comment: a; b (c)", 2], ncom=["source: x", 2, "history:   y", "===="])
    add("headed", scom=["Special Comments follow", 2, "==== ===="], ncom=[1, "Normal Comments follow", 2])
    add("headings", scom=["==== Special Comments follow ====", 2, "==== Special Comments end ===="], ncom=[1])
    add("user.one", scom=[2], ncom=[1], user=["note"])
    add("user.more", scom=[2], ncom=[1, 2], user=["zeta", "alpha", "Conventions"])
    add("user.none.comments", scom=[], ncom=[], user=["note"])
    two = dict(nv=1, naux=1, m=2)
    add("1010", scom=[2, 1], ncom=[1], ffi=1010, kw=two)
    add("2010", scom=[2, 1], ncom=[1, 3], ffi=2010, kw=dict(nv=1, naux=1, m=1, nx=(2,)))
    add("3010", scom=[1], ncom=[], ffi=3010, kw=dict(nv=1, naux=0, m=1, nx=(1, 2)))
    for n in (2, 3):
        add("again.%d" % n, scom=[2, 3], ncom=[3, 2], times=n)
        add("again.blank.%d" % n, scom=[2, 0], ncom=[0, 1, 0, 2], times=n)
        add("again.user.%d" % n, scom=[1], ncom=[2], user=["note"], times=n)
        add("again.empty.%d" % n, scom=[], ncom=[], times=n)
        add("again.one.%d" % n, scom=[], ncom=[1], times=n)
        add("again.other.%d" % n, scom=[1], ncom=[], times=n)
    for name, s, n in (("both", [2, 1], [1, 2, 3]), ("none", [], []), ("special", [2], []), ("normal", [], [3, 1])):
        add("files." + name, "files", scom=s, ncom=n)
        add("files.1010." + name, "files", scom=s, ncom=n, ffi=1010, kw=two, user=["note", "a"])
    add("files.own", "files", scom=[2, 1], ncom=[1, 2], distinct=True)
    return out
