"""printf-style and str.format formatting over proxies."""
import re
import string
import z3
from . import core
from .core import Sym, SymBool, SymInt, SymFloat, mkbool, Unsupported, has_sym
from .symstr import SymStr, NumTok, PadTok, mk, cells_of, isstr

SPEC = re.compile(r"%(?:\((?P<key>[^)]*)\))?(?P<flags>[-+ #0]*)"
                  r"(?P<width>\d+|\*)?(?:\.(?P<prec>\d+|\*))?[hlL]?"
                  r"(?P<conv>[diouxXeEfFgGcrsa%])")


def len_facts(tok):
    """Facts about the length of the text of a numeral (true of every double)."""
    ctx = core.CTX
    ln = ctx.L(tok.id)
    spec, e = tok.spec, tok.e
    facts = [ln >= 1, ln <= 400]
    m = re.match(r"%(?:\.(\d+))?([dsgGeE])$", spec)
    if m:
        p = int(m.group(1)) if m.group(1) is not None else 6
        t = m.group(2)
        if t == "d" and m.group(1) is None and tok.kind == "i":
            digits = z3.IntVal(20)
            for k in range(19, 0, -1):
                digits = z3.If(z3.And(e < 10 ** k, e > -10 ** k), z3.IntVal(k), digits)
            small = z3.And(e < 10 ** 19, e > -10 ** 19)
            neg = z3.If(e < 0, z3.IntVal(1), z3.IntVal(0))
            facts.append(z3.If(small, ln == digits + neg, ln >= 20))
        elif t == "s" and m.group(1) is None and tok.kind == "f":
            facts += [ln >= 3, ln <= 24]
        elif t in "gG":
            facts += [ln <= max(p, 1) + 7]
        elif t in "eE":
            facts += [ln >= p + 5, ln <= p + 8]
    ctx.add(z3.And(facts))
    return ln


def num_token(spec, v):
    """Cells of `spec % v` for a symbolic number v; spec has no width."""
    ctx = core.CTX
    if isinstance(v, SymBool):
        v = bool(v)
        return tuple(spec % v)
    if isinstance(v, SymInt):
        kind = "i"
        e = z3.ToReal(v.e)
        if spec in ("%r", "%s", "%d", "%i", "%a"):
            spec = "%d"
    else:
        if v.nan is not None and mkbool(v.nan):
            return tuple(spec % float("nan"))
        kind = "f"
        e = v.e
        if spec in ("%r", "%s", "%a"):
            spec = "%s"
        elif spec == "%i":
            spec = "%d"
    e = z3.simplify(e)
    n = core.num_value(e)
    if n is not None:
        return tuple(spec % (int(n) if kind == "i" else core.frac_to_float(n)))
    if spec == "%d" and kind == "f":
        # same text as the integer
        t = v.trunc()
        if isinstance(t, int):
            return tuple(str(t))
        return num_token("%d", t)
    if kind == "i" and spec not in ("%d",):
        kind = "f"          # %g of an int == %g of float
    f = ctx.fmt_fun(spec, kind)
    # idempotence: formatting the parsed text of the same format gives the text
    if z3.is_app(e) and e.decl().eq(ctx.P) and z3.is_app(e.arg(0)) and \
            e.arg(0).decl().eq(f):
        ident = e.arg(0)
    else:
        ident = f(e)
    if spec == "%d" or spec == "%s":
        val = e
        ctx.add(ctx.P(ident) == e)
    else:
        val = ctx.P(ident)
    ctx.fmt_apps.append((spec, kind, e, ident))
    return (NumTok(spec, kind, e, ident, val),)


def conv_one(m, v):
    """Cells for one conversion."""
    flags, width, prec, conv = (m.group("flags"), m.group("width"),
                                m.group("prec"), m.group("conv"))
    if conv in "sra":
        if conv == "s" or not isinstance(v, SymStr):
            s = to_str(v) if conv == "s" else to_repr(v)
        else:
            s = to_repr(v)
        if prec is not None:
            s = s[:int(prec)]
        if width is not None:
            s = s.ljust(int(width)) if "-" in flags else s.rjust(int(width))
        return cells_of(s)
    if conv == "c":
        if isstr(v):
            return cells_of(v)
        raise Unsupported("%c")
    if not isinstance(v, Sym):
        return tuple(m.group(0) % v if m.group("key") is None
                     else ("%" + m.group(0)[m.end("key") + 1 - m.start():]) % v)
    if isinstance(v, SymStr):
        if conv in "di":
            raise TypeError("%d format: a real number is required, not str")
        raise TypeError("must be real number, not str")
    if conv in "ouxX":
        if isinstance(v, SymFloat):
            raise TypeError("%%%s format: an integer is required, not float" % conv)
        return tuple(m.group(0) % v.__index__())
    spec = "%" + "".join(c for c in flags if c not in "-0 ") + \
        ("." + prec if prec is not None else "") + conv
    if " " in flags:
        spec = "% " + spec[1:]
    if conv == "i":
        spec = spec[:-1] + "d"
    if width is None:
        if " " in flags:
            raise Unsupported("space flag")
        return num_token(spec, v)
    if "0" in flags and "-" not in flags:
        # zero padding: the text is still one numeral
        spec = "%0" + width + spec[1:]
        return num_token(spec, v)
    toks = num_token(spec, v)
    w = int(width)
    if all(type(c) is str for c in toks):
        s = "".join(toks)
        return tuple(s.ljust(w) if "-" in flags else s.rjust(w))
    ctx = core.CTX
    tok = toks[0]
    ln = len_facts(tok)
    pad = PadTok(z3.If(ln < w, w - ln, 0))
    return (tok, pad) if "-" in flags else (pad, tok)


def to_str(v):
    if isinstance(v, SymStr):
        return v
    if isinstance(v, (SymInt, SymFloat, SymBool)):
        return mk(num_token("%s", v))
    if isinstance(v, BaseException) and has_sym(list(v.args)):
        if len(v.args) == 1:
            return to_str(v.args[0])
        return to_repr(tuple(v.args))
    if isinstance(v, (list, tuple, dict)) and has_sym(v):
        return to_repr(v)
    m = getattr(type(v), "__sx_str__", None)
    if m:
        return m(v)
    return str(v)


def to_repr(v):
    if isinstance(v, SymStr):
        return mk(("'",) + v.cells + ("'",))
    if isinstance(v, (SymInt, SymFloat, SymBool)):
        return mk(num_token("%s", v))
    if isinstance(v, (list, tuple)) and has_sym(v):
        o, c = ("[", "]") if isinstance(v, list) else ("(", ")")
        cells = [o]
        for i, x in enumerate(v):
            if i:
                cells.extend(", ")
            cells.extend(cells_of(to_repr(x)))
        if isinstance(v, tuple) and len(v) == 1:
            cells.append(",")
        cells.append(c)
        return mk(cells)
    if isinstance(v, dict) and has_sym(v):
        cells = ["{"]
        for i, (k, x) in enumerate(v.items()):
            if i:
                cells.extend(", ")
            cells.extend(cells_of(to_repr(k)))
            cells.extend(": ")
            cells.extend(cells_of(to_repr(x)))
        cells.append("}")
        return mk(cells)
    return repr(v)


def mod(f, args):
    """f % args where something is symbolic."""
    if isinstance(f, SymStr):
        # a symbolic format string: every '%' must be decided
        if any(type(c) is not str for c in f.cells):
            from .symstr import cell_in
            pieces = []
            sym_pct = False
            for c in f.cells:
                if type(c) is not str and cell_in(c, 1 << ord("%")):
                    sym_pct = True
            if sym_pct:
                f = f.realize("format string with a symbolic % sign")
    if isinstance(f, str):
        fc = None
        text = f
    else:
        # protect symbolic cells by private-use placeholders
        fc = {}
        buf = []
        for c in f.cells:
            if type(c) is str:
                buf.append(c)
            else:
                ch = chr(0xE000 + len(fc))
                fc[ch] = c
                buf.append(ch)
        text = "".join(buf)

    def lit(s):
        if fc is None:
            return tuple(s)
        return tuple(fc.get(ch, ch) for ch in s)
    out = []
    pos = 0
    is_map = isinstance(args, dict) or (not isinstance(args, (tuple, str, Sym))
                                        and hasattr(args, "keys"))
    seq = args if isinstance(args, tuple) else (args,)
    idx = 0
    while True:
        i = text.find("%", pos)
        if i < 0:
            out.extend(lit(text[pos:]))
            break
        out.extend(lit(text[pos:i]))
        m = SPEC.match(text, i)
        if not m:
            if i == len(text) - 1:
                raise ValueError("incomplete format")
            raise ValueError("unsupported format character")
        pos = m.end()
        if m.group("conv") == "%":
            out.append("%")
            continue
        if m.group("key") is not None:
            out.extend(conv_one(m, args[m.group("key")]))
            continue
        if m.group("width") == "*" or m.group("prec") == "*":
            raise Unsupported("* width")
        if idx >= len(seq):
            raise TypeError("not enough arguments for format string")
        v = seq[idx]
        idx += 1
        out.extend(conv_one(m, v))
    if idx < len(seq) and not is_map:
        raise TypeError("not all arguments converted during string formatting")
    return mk(out)


FSPEC = re.compile(r"^(?:(?P<fill>.)?(?P<align>[<>=^]))?(?P<sign>[-+ ])?"
                   r"(?P<alt>#)?(?P<zero>0)?(?P<width>\d+)?(?P<comma>[,_])?"
                   r"(?:\.(?P<prec>\d+))?(?P<type>[bcdeEfFgGnosxX%])?$")


def format_value(v, spec=""):
    """format(v, spec)"""
    if isinstance(spec, SymStr):
        spec = spec.realize("format spec")
    if not has_sym(v):
        return format(v, spec)
    if spec == "":
        return to_str(v)
    m = FSPEC.match(spec)
    if not m or m.group("comma") or m.group("sign") in ("+", " ") or m.group("alt"):
        raise Unsupported("format spec %r" % spec)
    t = m.group("type")
    if isinstance(v, SymStr):
        s = v
        if m.group("prec"):
            s = s[:int(m.group("prec"))]
        left = True
    else:
        if isinstance(v, SymBool):
            return format(bool(v), spec)
        if t is None:
            if m.group("prec") and isinstance(v, SymFloat):
                raise Unsupported("format spec %r" % spec)
            p = "%s"
        elif t == "d":
            if isinstance(v, SymFloat):
                raise ValueError("Unknown format code 'd' for object of type 'float'")
            p = "%d"
        elif t in "eEfFgG":
            p = "%" + ("." + m.group("prec") if m.group("prec") else "") + t
        else:
            raise Unsupported("format spec %r" % spec)
        if m.group("zero") and m.group("width"):
            return mk(num_token("%0" + m.group("width") + p[1:], v))
        s = mk(num_token(p, v))
        left = False
    if m.group("width"):
        fill = m.group("fill") or " "
        al = m.group("align") or ("<" if left else ">")
        w = int(m.group("width"))
        if isinstance(s, str):
            return {"<": s.ljust, ">": s.rjust, "^": s.center,
                    "=": s.rjust}[al](w, fill)
        if s.has_tok() and fill == " " and len(s.cells) == 1:
            ctx = core.CTX
            ln = len_facts(s.cells[0])
            pad = PadTok(z3.If(ln < w, w - ln, 0))
            return mk((s.cells[0], pad) if al == "<" else (pad, s.cells[0]))
        return s.ljust(w, fill) if al == "<" else s.rjust(w, fill)
    return s


def str_format(fmt, args, kwargs):
    """fmt.format(*args, **kwargs)"""
    out = []
    auto = 0
    fm = string.Formatter()
    for lit, field, spec, conv in fm.parse(fmt):
        out.extend(lit)
        if field is None:
            continue
        if field == "" or field[0] in ".[":
            field = str(auto) + field
            auto += 1
        obj, _ = fm.get_field(field, args, kwargs)
        if conv == "r" or conv == "a":
            obj = to_repr(obj)
        elif conv == "s":
            obj = to_str(obj)
        if spec and "{" in spec:
            spec = str_format(spec, args, kwargs)
        out.extend(cells_of(format_value(obj, spec or "")))
    return mk(out)
