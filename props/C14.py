"""C14 - a written file is written once and only through a writer."""
from props import nad, refna, shapes, common
from props import C02

BOUNDS = shapes.BOUND_TEXT + "; every sequence of 4 (thorough 5) calls over write, write without header, close, context exit, re-open for reading, re-open for writing"
ASSUMPTIONS = ["text handed to the file object is on disk after its flush (the in-memory file keeps unflushed text apart)"]

OPS = ["write", "nohead", "close", "exit", "read", "reopen"]


def life(sx, ffi, kw, steps, context):
    nappy = sx.nappy()
    d = nad.build(sx, ffi, **kw)
    e = nad.clone(d)
    full = common.write(sx, nappy, nad.clone(d), "full.na")
    body = common.write(sx, nappy, nad.clone(d), "body.na", no_header=True)
    sx.observe(full)
    f = nappy.openNAFile("o.na", "w", d)
    if context:
        f = f.__enter__()
    expected = ""
    state = "open"          # open, written, closed
    done = []
    for i in range(steps):
        op = sx.pick("op%d" % i, OPS)
        done.append(op)
        where = " after " + " ".join(done)
        if op in ("write", "nohead"):
            try:
                f.write(no_header=(op == "nohead"))
                refused = False
            except Exception:
                refused = True
            if state == "open":
                sx.check(not refused, "first write accepted" + where)
                expected = full if op == "write" else body
                state = "written"
            else:
                sx.check(refused, "write refused" + where)
        elif op == "close":
            f.close()
            state = "closed"
        elif op == "exit":
            e0 = ValueError("inside the block") if i % 2 else None
            swallowed = f.__exit__(type(e0) if e0 else None, e0, None)
            sx.check(not swallowed, "errors inside a with block are passed on" + where)
            state = "closed"
        elif op == "read":
            if expected == full:
                g = nappy.openNAFile("o.na")
                g.readData()
                common.same(sx, common.contents(g), e, "%.10g", "re-read" + where)
                try:
                    g.write()
                    refused = False
                except Exception:
                    refused = True
                sx.check(refused, "write through a reader refused" + where)
                g.close()
                try:
                    g.write()
                    refused = False
                except Exception:
                    refused = True
                sx.check(refused, "write through a closed reader refused" + where)
        else:
            f.close()
            f = nappy.openNAFile("o.na", "w", d)
            expected = ""
            state = "open"
        sx.check_eq(sx.text("o.na"), expected, "text on disk" + where)


def cases(tier):
    out = []
    for i, (name, ffi, kw) in enumerate(shapes.small(tier) if tier == "quick" else shapes.QUICK):
        steps = 3 if tier == "quick" else 4
        if name.startswith(("1001", "2110")):
            steps += 1
        out.append({"name": name, "fn": "life", "params": {"ffi": ffi, "kw": kw, "steps": steps,
                                                          "context": bool(i % 2)}})
    return out
