"""C27 - file comparison never calls different files identical."""
NUMERIC = True
NAPPY_MODULES = ["nappy.utils.compare_na", "nappy.utils.compare"]
BOUNDS = ("two files of 2-4 header and 0-4 body lines with 1-3 items each (also 70 header and 134 body lines, or 147 items, most of them fixed); every item of either file symbolic: any two real "
          "numbers up to 1e15, words of 1-4 characters, or numerals given digit by digit; different numbers of lines or items at "
          "every place; delimiters blanks, tab and comma for either file; header, body, strict and approximate options "
          "in all combinations; the command line with symbolic options")
ASSUMPTIONS = ["items hold no blanks, commas and quotes", "under approximate comparison numbers that differ by 0.99 to 1.01 percent "
               "and pairs of numbers below 1e-8 may go either way",
               "file names are not among the excluded ones"]


def both(sx, kind, name):
    """(text in file 1, text in file 2, same, same when compared strictly, surely same / surely
    different when compared approximately)"""
    if kind == "n":
        a, b = sx.float(name + "a"), sx.float(name + "b")
        eq = sx.eq(a, b)
        return a, b, eq, eq, (a, b)
    if kind == "t":
        a = sx.str(name + "a", 3, mask=sx.WORD, first=sx.ALPHA)
        b = sx.str(name + "b", 3, mask=sx.WORD, first=sx.ALPHA)
        eq = sx.eq(a, b)
        return a, b, eq, eq, None
    if kind == "u":         # words of different length
        a = sx.str(name + "a", 2, mask=sx.WORD, first=sx.ALPHA)
        b = sx.str(name + "b", 4, mask=sx.WORD, first=sx.ALPHA)
        return a, b, False, False, None
    if kind == "m":         # a number and a word
        a, b = sx.float(name + "a"), sx.str(name + "b", 2, mask=sx.WORD, first=sx.ALPHA)
        return a, b, False, False, None
    if kind == "M":
        a, b = sx.float(name + "a"), sx.str(name + "b", 2, mask=sx.WORD, first=sx.ALPHA)
        return b, a, False, False, None
    if kind[0] == "d":      # digits: d12 means one digit in file 1, two in file 2
        k = sx.mask("012")
        a, b = [sx.str(name + s, int(n), mask=k, first=k, last=k) for s, n in zip("ab", kind[1:])]
        same = len(a) == len(b) and sx.eq(a, b)
        return a, b, sx.eq(value(sx, a), value(sx, b)), same, (value(sx, a), value(sx, b))
    if kind[0] == "x":      # digits or a letter
        k = sx.mask("01x")
        a, b = [sx.str(name + s, int(n), mask=k, first=k, last=k) for s, n in zip("ab", kind[1:])]
        same = len(a) == len(b) and sx.eq(a, b)
        num = sx.neg(sx.any([sx.eq(c, "x") for c in list(a) + list(b)]))
        return a, b, sx.any([same, sx.all([num, sx.eq(value(sx, a), value(sx, b))])]), same, None
    return kind, kind, True, True, None


def value(sx, s):
    v = 0
    for c in s:
        v = 10 * v + sx.ite(sx.eq(c, "1"), 1, sx.ite(sx.eq(c, "2"), 2, 0))
    return v


def size(sx, x):
    return sx.ite(x < 0, 0 - x, x)


def minimum(sx, a, b):
    return sx.ite(a < b, a, b)


def approx(sx, p):
    a, b = p
    d, x, y = size(sx, a - b), size(sx, a), size(sx, b)
    far = sx.all([d * 100 > minimum(sx, x, y) * 1.01 + d * 0, sx.any([x > 1e-8, y > 1e-8])])
    near = d * 100 <= minimum(sx, x, y) * 0.99
    return far, near


def line_of(items, delim):
    return (delim or "  ").join([i if not isinstance(i, (int, float)) and hasattr(i, "strip") else "%s" % i for i in items])


def make(sx, spec, tag, d1, d2):
    """lines of both files and what is known about each"""
    l1, l2, facts = [], [], []
    for i, line in enumerate(spec):
        a, b, f = [], [], []
        for j, kind in enumerate(line):
            x, y, same, strict, nums = both(sx, kind, "%s%d.%d" % (tag, i, j))
            a.append(x)
            b.append(y)
            f.append((same, strict, nums))
        l1.append(line_of(a, d1))
        l2.append(line_of(b, d2))
        facts.append(f)
    return l1, l2, facts


def section(sx, facts, strict, near):
    """(surely identical, surely different)"""
    if strict:
        s = sx.all([f[1] for l in facts for f in l])
        return s, sx.neg(s)
    if not near:
        s = sx.all([f[0] for l in facts for f in l])
        return s, sx.neg(s)
    same, diff = [], []
    for l in facts:
        for eq, strict, nums in l:
            if nums is None:
                same.append(eq)
                diff.append(sx.neg(eq))
            else:
                far, close = approx(sx, nums)
                same.append(sx.any([eq, close]))
                diff.append(far)
    return sx.all(same), sx.any(diff)


def compare(sx, head, body, d1=None, d2=None, header=True, both_=True, clever=True, near=False, extra=None, part=None, entry=0):
    mod = sx.nappy("nappy.utils.compare_na")
    h1, h2, hf = make(sx, head, "h", d1, d2)
    b1, b2, bf = make(sx, body, "b", d1, d2)
    hlen = blen = False        # different lengths
    one, two = [h1, b1], [h2, b2]
    if extra:
        where, which, pos = extra
        ls = (one if which == 1 else two)[0 if where == "head" else 1]
        ls.insert(pos, "" if pos == 99 and where == "blank" else line_of(["9", "9"], (d1 if which == 1 else d2)))
        if where == "head":
            hlen = True
        else:
            blen = True
    t1 = [line_of(["%d" % (len(one[0]) + 1), "1001"], d1)] + one[0] + one[1]
    t2 = [line_of(["%d" % (len(two[0]) + 1), "1001"], d2)] + two[0] + two[1]
    sx.put("one.na", "\n".join(t1) + "\n")
    sx.put("two.na", "\n".join(t2) + "\n")
    kw = {"header": part != "body", "body": part != "head", "number_clever": clever, "approx_equal": near,
          "delimiter_1": d1, "delimiter_2": d2}
    got = (mod.compareNA if entry else mod.compNAFiles)("one.na", "two.na", **kw)
    got = bool(got)
    sx.observe(got)
    parts = ([] if part == "body" else [(hf, hlen)]) + ([] if part == "head" else [(bf, blen)])
    lengths = any(n for f, n in parts)
    known = [section(sx, f, not clever, near) for f, n in parts]
    sx.check(not (got and lengths), "files of different length are not identical")
    if got:
        sx.check(sx.neg(sx.any([d for s, d in known])), "files with different items are not identical")
    elif not lengths:
        sx.check(sx.neg(sx.all([s for s, d in known])), "files with the same items are identical")


def items(sx, place, k1, k2, d1=None, d2=None, clever=True, near=False):
    """different numbers of items in one line are never identical"""
    mod = sx.nappy("nappy.utils.compare_na")
    v = [sx.float("v%d" % i) for i in range(max(k1, k2))]
    ls = {"head": [line_of(v[:k1], d1), line_of(v[:k2], d2)], "body": ["1", "1"]}
    if place == "body":
        ls = {"head": ["1", "1"], "body": ls["head"]}
    for i, (name, d) in enumerate((("one.na", d1), ("two.na", d2))):
        sx.put(name, "\n".join([line_of(["2", "1001"], d), ls["head"][i], ls["body"][i]]) + "\n")
    got = mod.compNAFiles("one.na", "two.na", number_clever=clever, approx_equal=near, delimiter_1=d1, delimiter_2=d2)
    sx.check(bool(got) == (k1 == k2), "lines with different numbers of items")


def converted(sx, ffi, kw, strict=False):
    """a file and its CSV version hold the same items"""
    from props import nad
    nappy = sx.nappy()
    d = nad.build(sx, ffi, alpha=True, **kw)
    f = nappy.openNAFile("in.na", "w", na_dict=d)
    f.write(float_format="%s")
    f.close()
    nappy.convertNAToCSV("in.na", "out.csv")
    sx.check(nappy.compareNA("in.na", "in.na", number_clever=not strict) is True, "file compared with itself")
    sx.check(nappy.compareNA("in.na", "in.na", approx_equal=True) is True, "file compared with itself, approximately")
    lines = sx.text("in.na").split("\n")
    extra = sx.text("in.na") + lines[-2] + "\n"
    sx.put("more.na", extra)
    sx.check(not nappy.compareNA("in.na", "more.na"), "file with one more line")
    sx.check(not nappy.compareNA("more.na", "in.na"), "file with one more line, the other way")


OPTIONS = [("-n", None), ("--number-strict", None), ("-a", None), ("--approx-equal", None), ("-1", "d"), ("-2", "e"),
           ("--delimiter-1", "d"), ("--delimiter-2", "e"), ("-h", None), ("-b", None), ("--header-only", None),
           ("--body-only", None)]


def command(sx, n):
    """options in any combination and order, with any delimiters"""
    mod = sx.nappy("nappy.utils.compare_na")
    args, want = [], {"header": True, "body": True, "number_clever": True, "approx_equal": False, "delimiter_1": None,
                      "delimiter_2": None}
    for i in range(n):
        opt, val = sx.pick("o%d" % i, OPTIONS)
        v = sx.str("v%d" % i, 1, mask=sx.TEXT, first=sx.TEXT, last=sx.TEXT) if val else None
        if val and opt[1] == "-":
            args.append(opt + "=" + v)
        else:
            args += [opt] + ([v] if val else [])
        key, x = {"n": ("number_clever", False), "a": ("approx_equal", True), "1": ("delimiter_1", v),
                  "2": ("delimiter_2", v), "h": ("body", False), "b": ("header", False)}[
                      opt[-1] if opt.startswith("--d") else opt.lstrip("-")[0]]
        want[key] = x
    f = [sx.str("f1", 3, mask=sx.ALPHA, first=sx.ALPHA), "b.na"]
    if not want["header"] and not want["body"]:
        refused = False
        try:
            mod.parseArgs(args + f)
        except SystemExit:
            refused = True
        sx.check(refused, "header only and body only exclude each other")
        return
    files, got = mod.parseArgs(args + f)
    sx.observe([files, sorted(got.items(), key=lambda x: x[0])])
    sx.check_eq(list(files), f, "files")
    sx.check(set(got) == set(want), "options known")
    for k in want:
        sx.check_eq(got[k], want[k], "option %s" % k)


def cases(tier):
    out = []

    def add(name, fn="compare", **p):
        out.append({"name": name, "fn": fn, "params": p})
    D = [(None, None), (None, ","), (",", None), (",", ","), ("\t", ",")]
    H, B = [["t"], ["n", "n"]], [["n", "n"], ["n", "n"]]
    for i, (d1, d2) in enumerate(D):
        for part in (None, "head", "body"):
            for clever, near in ((True, False), (False, False), (True, True)):
                add("plain.%d.%s.%s.%s" % (i, part, clever, near), head=H, body=B, d1=d1, d2=d2, part=part, clever=clever, near=near) \
                    if not near else \
                    add("plain.%d.%s.near" % (i, part), head=[["t"], ["n"]], body=[["n", "5"]], d1=d1, d2=d2, part=part, near=near)
    add("entry", head=H, body=B, entry=1)
    add("entry.near", head=[["t"]], body=[["n"], ["n"]], entry=1, near=True)
    for k in ("d11", "d12", "d21", "d22", "x11", "x12", "x22"):
        for where in ("head", "body"):
            for clever, near in ((True, False), (False, False), (True, True)):
                if k[0] == "x" and near:
                    continue
                l = [["n"], [k]]
                add("%s.%s.%s.%s" % (k, where, clever, near), head=l if where == "head" else [["t"]],
                    body=[["n"]] if where == "head" else [[k, "5"]], clever=clever, near=near)
    for k in "umM":
        for near in (False, True):
            add("kinds.%s.%s" % (k, near), head=[["t"]], body=[["n", k], ["3", "n"]] if not near else [["n", k]], near=near)
            add("kinds.head.%s.%s" % (k, near), head=[[k], ["t"]], body=[["n"]], near=near)
    add("words", head=[["t", "t"], ["t"]], body=[["t"]])
    add("words.csv", head=[["t", "t"], ["t"]], body=[["t", "n"]], d2=",")
    add("body.empty", head=[["t"], ["n"]], body=[])
    add("one.item", head=[["t"]], body=[["n"]], near=True)
    add("last.item", head=[["1"]], body=[["1", "2", "3"], ["4", "5", "n"]])
    add("first.line", head=[["n"]], body=[["1", "2"], ["4", "5"]])
    for where, n in (("head", 2), ("body", 2)):
        for which in (1, 2):
            for pos in range(n + 1):
                for part in (None, "head", "body"):
                    add("extra.%s.%d.%d.%s" % (where, which, pos, part), head=[["t"], ["n"]], body=[["n"], ["n"]],
                        extra=[where, which, pos], part=part)
    for place in ("head", "body"):
        for k1, k2 in ((1, 2), (2, 1), (3, 2), (2, 2)):
            for d1, d2 in D[:3]:
                for near in (False, True):
                    add("items.%s.%d%d.%s%s.%s" % (place, k1, k2, d1, d2, near), "items", place=place, k1=k1, k2=k2, d1=d1, d2=d2, near=near)
    for i, near in enumerate((False, True)):
        d1, d2 = D[2 * i]
        k = "n" if not near else "1"
        add("many.lines.%d" % i, head=[["t" if not near else "5"]] + [["1", "2"]] * 60 + [[k, "3"]] + [["1"]] * 8,
            body=[[k]] + [["4", "5"]] * 70 + [["n", "1"]] + [["2"]] * 60 + [["3", k]], d1=d1, d2=d2, near=near)
        add("many.items.%d" % i, head=[["1"] * 70 + [k] + ["2"] * 9], body=[["3"] * 25 + [k] + ["7"] * 120 + ["n"]], d1=d2, d2=d1,
            near=near)
    from props import shapes
    for i, (ffi, kw) in enumerate([(1001, dict(nv=2, m=2)), (1010, dict(nv=1, naux=2, m=2)), (2010, dict(nv=1, naux=1, m=1, nx=(2,))),
                                   (2110, dict(nv=1, naux=2, m=2, sizes=[1, 2]))]):
        add("converted.%d" % ffi, "converted", ffi=ffi, kw=kw)
    for n in range(3 if tier == "quick" else 4):
        add("command.%d" % n, "command", n=n)
    return out
