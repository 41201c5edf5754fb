"""C31 - requested time units go to the time axis, and nowhere else."""
import builtins

from props import ncd, ncio, naconv

NUMERIC = True
NAPPY_MODULES = ncd.NAPPY_MODULES
BOUNDS = ("formats 1001, 1010, 1020, 2010, 3010 and 4010 with the time axis in every place or nowhere; own units valid or "
          "not, with up to 6 symbolic characters; requested units none, blank, or with up to 6 symbolic characters; "
          "questions answered by up to three replies of which two are symbolic; every number symbolic")
ASSUMPTIONS = ["at most one axis is a time axis (its name contains the word time)",
               "the NetCDF library is replaced by an in-memory store; the terminal by a list of replies"]
# (text before, number of symbolic characters, kind of characters, text after), valid time units?
OWN = {
    "none": (None, False),
    "text": (["", 3, "a", ""], False),
    "s": (["s", 0, "a", ""], False),
    "since": (["hours since ", 4, "a", ""], False),
    "before": (["hours before 2001-02-0", 1, "1", ""], False),
    "day": (["hours since 200", 1, "1", "-1-1"], True),
    "date": (["", 4, "a", " since 2001-02-03"], True),
    "time": (["days since 2001-", 2, "1", "-03 12:00:00"], True),
    "zone": (["seconds since 1970-01-01 00:00:00 ", 3, "a", ""], True),
    "short": (["d since 1-1-", 1, "1", ""], True),
}
TIMES = ["Time", "Elapsed time of flight", "Local TIME"]
OTHER = ["Height (m)", "Pressure", "Longitude (degrees)", "Seconds after launch (s)"]


class Terminal:
    def __init__(self, replies):
        self.replies, self.asked = list(replies), 0

    def __call__(self, prompt=""):
        self.asked += 1
        if not self.replies:
            raise EOFError("no reply")
        return self.replies.pop(0)

    def __enter__(self):
        self.saved = builtins.input
        builtins.input = self
        return self

    def __exit__(self, *a):
        builtins.input = self.saved


def text(sx, name, spec):
    if spec is None:
        return None
    before, n, kind, after = spec
    mask = sx.mask("0123456789") if kind == "1" else sx.mask("abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ")
    return before + (sx.str(name, n, mask=mask, first=mask, last=mask) if n else "") + after


def axis(sx, ffi, kw, place, own, want, time=0, warn=True, replies=(), entry="convert"):
    nappy = sx.nappy()
    niv = ffi // 1000
    names = list(OTHER[:niv])
    units, valid = OWN[own]
    units = text(sx, "own", units)
    if place is not None:
        names[place] = TIMES[time] + ("" if units is None else " (" + units + ")")
    d = naconv.contents(sx, ffi, kw, xnames=names)
    naconv.put(sx, d)
    rec = naconv.values(nappy)
    asked = text(sx, "asked", want)
    said = [text(sx, "reply%d" % i, OWN[r][0]) or "" for i, r in enumerate(replies)]
    needed = place is not None and not valid and asked is None and warn
    expect = None
    if place is not None and not valid:
        expect = asked
        if needed:
            expect = said[-1]
    opts = {"time_units": asked, "time_warning": warn}
    with Terminal(said) as t:
        if entry == "convert":
            mod = sx.nappy("nappy.nc_interface.na_to_xarray")
            prim, aux, glob = mod.NADictToXarrayObjects(nappy.openNAFile("in.na"), **opts).convert()
            got = [[v.coords[n] for n in v.dims] for v in prim]
        else:
            with ncio.Store() as st:
                nappy.convertNAToNC("in.na", "out.nc", **opts)
            ds = st.files["out.nc"]
            got = [[ds.coords[n] for n in ds[v].dims] for v in ds.data_vars if "nasa_ames_var_number" in ds[v].attrs]
    sx.observe([[(a.name, a.attrs["units"], a.attrs["long_name"]) for a in l] for l in got] + [t.asked])
    sx.check(t.asked == (len(said) if needed else 0), "questions asked")
    sx.check(len(got) == rec["NV"], "every variable")
    values = naconv.expanded(rec)
    for l in got:
        sx.check(len(l) == niv, "number of axes")
        for i, a in enumerate(l):
            what = "axis %d" % i
            sx.check_eq(naconv.tolist(a), values[i], what + ": coordinates")
            if i == place:
                sx.check(a.name == "time" and a.attrs.get("axis") == "T", what + ": is the time axis")
                if expect:
                    sx.check_eq(a.attrs["units"], expect, what + ": units given")
                else:
                    sx.check_eq(a.attrs["units"], units or "Not known", what + ": own units")
                    sx.check_eq(a.attrs["long_name"], rec["XNAME"][i], what + ": own description")
            else:
                nm, u = naconv.split_units(OTHER[i])
                sx.check_eq(a.name, "longitude" if i == 2 else naconv.clean(nm), what + ": name")
                sx.check_eq(a.attrs["units"], u or "Not known", what + ": units")
                sx.check_eq(a.attrs["long_name"], OTHER[i], what + ": description")


SHAPES = [(1001, dict(nv=2, m=2)), (1010, dict(nv=1, naux=1, m=2)), (1020, dict(nv=1, naux=1, m=2, nvpm=2)),
          (2010, dict(nv=1, naux=1, m=2, nx=(2,))), (3010, dict(nv=1, naux=0, m=1, nx=(2, 3), nxdef=(1, 3))),
          (4010, dict(nv=1, naux=0, m=1, nx=(2, 1, 2)))]
ASK = [("hours since 200", 1, "1", "-01-01 00:00:00"), ("days since ", 4, "1", "-1-1")]


def cases(tier):
    out = []

    def add(name, **p):
        out.append({"name": name, "fn": "axis", "params": p})
    k = 0
    for ffi, kw in SHAPES:
        for place in [None] + list(range(ffi // 1000)):
            for own in OWN:
                if place is None and own != "none":
                    continue
                k += 1
                entry = ("convert", "api")[k % 2]
                base = dict(ffi=ffi, kw=kw, place=place, own=own, time=k % 3)
                n = "%d.%s.%s" % (ffi, place, own)
                add(n + ".asked", want=ASK[k % 2], entry=entry, warn=k % 3 != 0, **base)
                add(n + ".none", want=None, entry=entry, warn=False, **base)
                if ffi in (1001, 2010) or tier != "quick":
                    add(n + ".blank", want=["", 0, "a", ""], entry=entry, **base)
                    for r in (["day"], ["none"], ["text", "date"], ["since", "s", "time"], ["text", "none"]):
                        if place is None or OWN[own][1]:
                            r = []
                        add(n + ".reply" + "".join(r), want=None, replies=r, entry=entry, **base)
                        if not r:
                            break
    return out
