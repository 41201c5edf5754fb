"""Independent description of the NASA Ames exchange format (version 1.3,
Gaines & Hipskind, section 6): the sequence of records of a file, given the
contents.  Written from the specification text, not from nappy's code.

A record is ("S", text) - a line holding a character string - or
("N", [values], kind) - numbers of one logical record; kind is "h" (header,
written with full precision), "i" (integers) or "d" (data, written with the
requested number format; missing values of the header have the form they have
among the data, otherwise no point equals them).
"""


def rev(x):
    return [x[len(x) - 1 - i] for i in range(len(x))]


def flat(x):
    """values of a nested list, last index varying fastest"""
    if not isinstance(x, list):
        return [x]
    out = []
    for y in x:
        out.extend(flat(y))
    return out


def header_records(d, nlhead):
    ffi = d["FFI"]
    r = [("N", [nlhead, ffi], "i"), ("S", d["ONAME"]), ("S", d["ORG"]),
         ("S", d["SNAME"]), ("S", d["MNAME"]), ("N", [d["IVOL"], d["NVOL"]], "i"),
         ("N", list(d["DATE"]) + list(d["RDATE"]), "i")]
    # specification order: fastest varying axis first = reversed dictionary order
    if ffi in (2160, 2310):
        r.append(("N", [d["DX"][0]], "h"))
    else:
        r.append(("N", rev(d["DX"]), "h"))
    if ffi == 1020:
        r.append(("N", [d["NVPM"]], "i"))
    if ffi == 2160:
        r.append(("N", [d["LENX"]], "i"))
    if ffi in (2010, 3010, 4010):
        r.append(("N", rev(d["NX"]), "i"))
        r.append(("N", rev(d["NXDEF"]), "i"))
        for s in range(d["NIV"] - 1, 0, -1):
            r.append(("N", d["X"][s][:d["NXDEF"][s - 1]], "d"))
    for x in rev(d["XNAME"]):
        r.append(("S", x))
    r.append(("N", [d["NV"]], "i"))
    r.append(("N", d["VSCAL"], "h"))
    r.append(("N", d["VMISS"], "d"))
    for x in d["VNAME"]:
        r.append(("S", x))
    if ffi != 1001:
        na = d["NAUXV"]
        r.append(("N", [na], "i"))
        if ffi == 2160:
            nc = d["NAUXC"]
            k = na - nc
            r.append(("N", [nc], "i"))
            r.append(("N", d["ASCAL"][:k], "h"))
            r.append(("N", d["AMISS"][:k], "d"))
            if nc > 0:
                r.append(("N", d["LENA"][k:], "i"))
            for x in d["AMISS"][k:]:
                r.append(("S", x))
        elif na > 0:
            r.append(("N", d["ASCAL"], "h"))
            r.append(("N", d["AMISS"], "d"))
        for x in d["ANAME"]:
            r.append(("S", x))
    r.append(("N", [d["NSCOML"]], "i"))
    for x in d["SCOM"]:
        r.append(("S", x))
    r.append(("N", [d["NNCOML"]], "i"))
    for x in d["NCOM"]:
        r.append(("S", x))
    return r


def data_records(d):
    ffi = d["FFI"]
    nv = d["NV"]
    V = d["V"]
    X = d["X"]
    r = []
    if ffi == 1001:
        for m in range(len(X)):
            r.append(("N", [X[m]] + [V[n][m] for n in range(nv)], "d"))
        return r
    na = d["NAUXV"]
    A = d["A"]
    if ffi in (1010, 1020):
        per = d["NVPM"] if ffi == 1020 else 1
        for m in range(len(X)):
            r.append(("N", [X[m]] + [A[a][m] for a in range(na)], "d"))
            if ffi == 1010:
                r.append(("N", [V[n][m] for n in range(nv)], "d"))
            else:
                for n in range(nv):
                    r.append(("N", V[n][m * per:(m + 1) * per], "d"))
        return r
    if ffi in (2010, 3010, 4010):
        for m in range(len(X[0])):
            r.append(("N", [X[0][m]] + [A[a][m] for a in range(na)], "d"))
            for n in range(nv):
                for row in rows(V[n][m]):
                    r.append(("N", row, "d"))
        return r
    for m in range(len(X)):
        if ffi == 2160:
            k = na - d["NAUXC"]
            r.append(("S", X[m][0]))
            r.append(("N", [A[a][m] for a in range(k)], "d", "X"))
            for a in range(k, na):
                r.append(("S", A[a][m]))
        else:
            r.append(("N", [X[m][0]] + [A[a][m] for a in range(na)], "d", "X"))
        if ffi == 2310:
            for n in range(nv):
                r.append(("N", [V[n][m][i] for i in range(d["NX"][m])], "d"))
        else:
            for i in range(d["NX"][m]):
                r.append(("N", [X[m][1][i]] + [V[n][m][i] for n in range(nv)], "d"))
    return r


def rows(x):
    """innermost lists of a nested list, in storage order"""
    if not isinstance(x[0], list):
        return [x]
    out = []
    for y in x:
        out.extend(rows(y))
    return out


def split_lines(text):
    """physical lines, without terminators; a final newline ends the last"""
    out = text.split("\n")
    if len(out) and out[len(out) - 1] == "":
        out = out[:-1]
    return out


def tokens(line, delim):
    if delim == ",":
        return [t.strip() for t in line.split(",")]
    return line.split()


def expected(v, kind, ff):
    if kind == "d":
        return float(ff % v)
    return v


def match(sx, lines, pos, recs, what, delim=" ", ff="%.10g", strict_line=True):
    """The lines from pos on hold exactly the records recs; returns new pos.

    A numeric record starts on a new line and may span several lines, but no
    line may hold values of two records."""
    for k, rec in enumerate(recs):
        where = "%s record %d" % (what, k)
        if pos >= len(lines):
            sx.fail(where + ": file ends early")
            return pos
        if rec[0] == "S":
            sx.check_eq(lines[pos].strip(), rec[1].strip(), where + " (text)")
            pos += 1
            continue
        want = rec[1]
        got = []
        while len(got) < len(want):
            if pos >= len(lines):
                sx.fail(where + ": file ends early")
                return pos
            toks = tokens(lines[pos], " " if k == -1 else delim)
            if not toks:
                sx.fail(where + ": empty line inside a record")
                return pos
            got.extend(toks)
            pos += 1
        sx.check(len(got) == len(want), where + ": %d values expected, %d found" % (len(want), len(got)))
        if len(got) != len(want):
            return pos
        for t, v in zip(got, want):
            if rec[2] == "i":
                sx.check_eq(int(t), v, where + " (integer)")
            else:
                sx.check_eq(float(t), expected(v, rec[2], ff), where + " (number)")
    return pos


def norm_date_line(line):
    return line
