"""Structural configurations (sizes and counts) shared by the harnesses of the
file-format properties.  Sizes are concrete per case; all contents symbolic."""


def S(ffi, tag, **kw):
    return ("%d.%s" % (ffi, tag), ffi, kw)


QUICK = [
    S(1001, "min", nv=1, m=1, nscom=0, nncom=0, strlen=(1,)),
    S(1001, "a", nv=3, m=2, nscom=2, nncom=1, strlen=(3, 1, 0, 2)),
    S(1001, "b", nv=2, m=3, nscom=0, nncom=3, strlen=(5, 2)),
    S(1010, "a", nv=1, naux=0, m=2, nscom=1, nncom=0),
    S(1010, "b", nv=2, naux=3, m=2, nscom=0, nncom=2, strlen=(1, 4, 0)),
    S(1020, "a", nv=2, naux=1, m=2, nvpm=3),
    S(1020, "b", nv=1, naux=2, m=3, nvpm=2, strlen=(4, 0, 1)),
    S(2010, "a", nv=1, naux=0, m=2, nx=(3,)),
    S(2010, "b", nv=2, naux=2, m=2, nx=(2,), nxdef=(1,), nscom=2, nncom=0),
    S(2110, "a", nv=2, naux=2, sizes=[2, 1, 3]),
    S(2110, "b", nv=1, naux=1, sizes=[1, 2], nscom=0, nncom=2),
    S(2110, "c", nv=2, naux=3, sizes=[2, 0, 1]),
    S(2160, "a", nv=2, naux=3, nauxc=1, sizes=[2, 1]),
    S(2160, "b", nv=1, naux=2, nauxc=0, sizes=[1, 2], nscom=0),
    S(2160, "c", nv=1, naux=4, nauxc=2, sizes=[1, 1], nncom=2),
    S(2160, "d", nv=2, naux=5, nauxc=2, sizes=[1]),
    S(2310, "a", nv=2, naux=3, sizes=[2, 3]),
    S(2310, "b", nv=1, naux=4, sizes=[3, 1, 2], nncom=0),
    S(2310, "c", nv=2, naux=3, sizes=[1, 0, 2]),
    S(3010, "a", nv=2, naux=1, m=2, nx=(2, 3)),
    S(3010, "b", nv=1, naux=0, m=1, nx=(3, 2), nxdef=(1, 2), nscom=0),
    S(3010, "c", nv=1, naux=2, m=2, nx=(2, 2), nxdef=(2, 1)),
    S(4010, "a", nv=1, naux=1, m=2, nx=(2, 3, 1)),
    S(4010, "b", nv=2, naux=0, m=1, nx=(2, 1, 3), nxdef=(1, 1, 3)),
    S(4010, "c", nv=1, naux=2, m=1, nx=(3, 2, 2), nxdef=(3, 2, 1)),
]

# more of everything: longer lists, records and texts than usual
LARGE = [
    S(1001, "wide", nv=12, m=2, strlen=(1,)),
    S(1001, "long", nv=1, m=24, strlen=(2,)),
    S(1001, "text", nv=2, m=1, nscom=6, nncom=8, strlen=(12, 0, 90, 7)),
    S(1001, "uni", nv=2, m=1, nscom=2, nncom=2, strlen=(2, 1), uni=True),
    S(2160, "uni", nv=1, naux=2, nauxc=1, sizes=[1], nscom=1, nncom=0, strlen=(1,), uni=True),
    S(1001, "lines", nv=2, m=1, nscom=2, nncom=2, strlen=(2, 1), uni="lines"),
    S(2160, "lines", nv=1, naux=2, nauxc=1, sizes=[1], nscom=1, nncom=2, strlen=(1,), uni="lines"),
    S(1010, "wide", nv=10, naux=11, m=1, strlen=(1,)),
    S(1020, "wide", nv=4, naux=5, m=2, nvpm=11, strlen=(1, 2)),
    S(2010, "wide", nv=2, naux=0, m=2, nx=(14,), strlen=(1,)),
    S(2110, "wide", nv=6, naux=6, sizes=[5, 12], strlen=(1,)),
    S(2160, "wide", nv=6, naux=9, nauxc=5, sizes=[11], strlen=(1, 3)),
    S(2310, "wide", nv=5, naux=9, sizes=[12, 5], strlen=(1,)),
    S(3010, "wide", nv=2, naux=4, m=1, nx=(4, 11), strlen=(2,)),
    S(4010, "wide", nv=1, naux=3, m=1, nx=(2, 3, 11), nxdef=(1, 3, 11), strlen=(1,)),
]

# far more of everything, with a few symbolic values among many fixed ones
HUGE = [
    S(1001, "rows", nv=2, m=260, strlen=(2,), sparse=53),
    S(1001, "vars", nv=130, m=2, strlen=(3,), sparse=47),
    S(1001, "words", nv=1, m=1, nscom=70, nncom=120, strlen=(3, 0, 300, 9), sparse=23),
    S(1010, "vars", nv=40, naux=60, m=2, strlen=(2,), sparse=31),
    S(1020, "rows", nv=2, naux=3, m=3, nvpm=70, strlen=(2,), sparse=41),
    S(2010, "rows", nv=2, naux=2, m=12, nx=(25,), strlen=(2,), sparse=43),
    S(2110, "rows", nv=2, naux=3, sizes=[110, 2], strlen=(2,), sparse=37),
    S(2160, "rows", nv=2, naux=4, nauxc=2, sizes=[110, 2], strlen=(2,), sparse=37),
    S(2310, "rows", nv=2, naux=4, sizes=[110, 2], strlen=(2,), sparse=37),
    S(3010, "rows", nv=1, naux=2, m=11, nx=(3, 13), strlen=(2,), sparse=43),
    S(4010, "rows", nv=1, naux=1, m=3, nx=(3, 2, 25), nxdef=(3, 1, 25), strlen=(2,), sparse=43),
]

# one or two per format, for the harnesses with an expensive second dimension
SMALL = ["1001.a", "1010.b", "1020.a", "2010.b", "2110.a", "2160.a", "2310.a", "3010.b", "4010.b"]


def thorough():
    out = list(QUICK)
    for nv in (1, 2, 3):
        for m in (1, 2, 4):
            for ns, nn in ((0, 0), (2, 3)):
                out.append(S(1001, "t%d%d%d" % (nv, m, ns), nv=nv, m=m, nscom=ns, nncom=nn, strlen=(3, 0, 1, 6)))
                for na in (0, 1, 3):
                    out.append(S(1010, "t%d%d%d%d" % (nv, m, ns, na), nv=nv, m=m, naux=na, nscom=ns,
                                 nncom=nn, strlen=(2, 5, 1, 0)))
    for nv in (1, 3):
        for m in (1, 3):
            for na in (0, 2):
                for per in (1, 2, 4):
                    out.append(S(1020, "t%d%d%d%d" % (nv, m, na, per), nv=nv, m=m, naux=na, nvpm=per))
                for nx in (1, 2, 4):
                    for nd in sorted({1, nx}):
                        out.append(S(2010, "t%d%d%d%d%d" % (nv, m, na, nx, nd), nv=nv, m=m, naux=na,
                                     nx=(nx,), nxdef=(nd,)))
                for nx in ((1, 3), (3, 1), (2, 4)):
                    for nd in (nx, (1, nx[1]), (nx[0], 1), (1, 1)):
                        out.append(S(3010, "t%d%d%d.%d%d.%d%d" % ((nv, m, na) + nx + nd), nv=nv, m=m,
                                     naux=na, nx=nx, nxdef=nd))
    for nv in (1, 2):
        for nx in ((1, 2, 3), (3, 2, 1), (2, 2, 2)):
            for nd in (nx, (1, nx[1], nx[2]), (nx[0], 1, nx[2]), (1, 1, 1)):
                for na in (0, 2):
                    out.append(S(4010, "t%d%d.%d%d%d.%d%d%d" % ((nv, na) + nx + nd), nv=nv, m=2 if nv == 1 else 1,
                                 naux=na, nx=nx, nxdef=nd))
        for sizes in ([1], [4], [3, 1], [0, 2], [1, 2, 3], [2, 0, 0, 1]):
            t = "".join(map(str, sizes))
            for na in (1, 3):
                out.append(S(2110, "t%d%d.%s" % (nv, na, t), nv=nv, naux=na, sizes=sizes))
            for na in (3, 5):
                out.append(S(2310, "t%d%d.%s" % (nv, na, t), nv=nv, naux=na, sizes=sizes))
            for na, nc in ((1, 0), (2, 1), (4, 3)):
                out.append(S(2160, "t%d%d%d.%s" % (nv, na, nc, t), nv=nv, naux=na, nauxc=nc, sizes=sizes))
    out += LARGE + HUGE
    seen = set()
    res = []
    for s in out:
        if s[0] not in seen:
            seen.add(s[0])
            res.append(s)
    return res


def shapes(tier):
    return QUICK + LARGE + HUGE if tier == "quick" else thorough()


def small(tier):
    if tier == "quick":
        return [s for s in QUICK if s[0] in SMALL]
    return thorough()


BOUND_TEXT = ("numbers: any real in [-1e15,1e15]; header strings: any printable ASCII without curly braces "
              "and without leading/trailing blanks or quotes, lengths 0-5 (thorough 0-20); sizes per case: "
              "<=3 primary variables (thorough 12), <=3 auxiliary variables (thorough 11), <=3 marks of the "
              "unbounded axis (thorough 24), bounded axes <=3 values (thorough 14), <=3 comment lines "
              "(thorough 8); in addition one shape per format with up to 260 marks, 130 variables, 190 comment "
              "lines or texts of 300 characters, of which every 23rd to 53rd value is symbolic and the others fixed")
