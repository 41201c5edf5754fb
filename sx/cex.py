"""Turning solver models into concrete inputs."""
import z3
from fractions import Fraction
from . import core
from .core import SymBool, SymInt, SymFloat, num_value, frac_to_float
from .symstr import SymStr, SChar, NumTok, PadTok

GENERIC = [
    lambda i: 17.345678901234567 + 31.718281828459045 * i,
    lambda i: 9876.5432109876543 + 1023.3333333333333 * i * (-1) ** i,
    lambda i: -(3.1415926535897931e-4 + 7.1234567890123456e-5 * i),
    lambda i: 123456789.12345679 + 1234567.8901234567 * i,
]
GENERIC_INT = [lambda i: 3 + 2 * i, lambda i: 101 + 17 * i,
               lambda i: 1990 + i, lambda i: 0]


def eval_num(m, e):
    return num_value(m.eval(e, model_completion=True))


def lemmas(ctx, m, floats):
    """True facts about formatting at the model's values that the model breaks."""
    out = []
    for spec, kind, e, ident in ctx.fmt_apps:
        v = eval_num(m, e)
        if v is None:
            continue
        if kind == "i":
            if Fraction(v).denominator != 1:
                continue
            text = spec % int(v)
        else:
            text = spec % frac_to_float(v)
        try:
            val = Fraction(float(text))
        except (ValueError, OverflowError):
            continue
        tid = ctx.text_ids.get(text)
        if tid is None:
            tid = ctx.text_ids[text] = -1 - len(ctx.text_ids)
        # formatting is a function of the value: identity of the text
        at = e == core.to_num(v, e)
        fact = z3.Implies(at, z3.And(ident == tid,
                                     ctx.P(z3.IntVal(tid)) == z3.RealVal(str(val)),
                                     ctx.L(z3.IntVal(tid)) == len(text)))
        if not z3.is_true(m.eval(fact, model_completion=True)):
            out.append(fact)
    return out


def solve_true(ctx, rounds=25):
    """A model of the solver's current assertions which respects formatting."""
    s = ctx.solver
    ctx.refuted = False
    s.push()
    try:
        for _ in range(rounds):
            r = ctx._check()
            if r != z3.sat:
                ctx.refuted = r == z3.unsat
                return None
            m = s.model()
            ls = lemmas(ctx, m, None)
            if not ls:
                return m
            s.add(*ls)
        return None
    finally:
        s.pop()


def snap(ctx):
    """Move the numeric inputs to nearby numbers with few binary digits (numbers
    which are not floating point numbers never survive formatting)."""
    s = ctx.solver
    if ctx._check() != z3.sat:
        return
    for name, (kind, expr, extra) in ctx.inputs.items():
        if kind != "float":
            continue
        m = s.model()
        v = eval_num(m, expr)
        if v is None:
            continue
        v = Fraction(v)
        for bits in (0, 1, 3, 10, 20):
            if bits == 20 or abs(v) < 2 ** 30:
                w = Fraction(round(v * 2 ** bits), 2 ** bits) if bits < 20 else Fraction(frac_to_float(v))
                s.push()
                s.add(expr == core.to_num(w, expr))
                if ctx._check() == z3.sat:
                    keep = True
                else:
                    keep = False
                s.pop()
                if keep:
                    s.add(expr == core.to_num(w, expr))
                    break
        if ctx._check() != z3.sat:
            return


def candidate_models(ctx, n=3):
    """Models preferring generic values for the numeric inputs."""
    s = ctx.solver
    grid = getattr(ctx, "grid", ())
    for gi in range(n):
        s.push()
        try:
            soft = []
            if grid:
                s.push()
                s.add([z3.IsInt(v * 4) for v in grid])
                r = ctx._check()
                s.pop()
                if r == z3.sat:
                    s.add([z3.IsInt(v * 4) for v in grid])
            gnames = set(v.decl().name() for v in grid)
            fi = ii = 0
            for name, (kind, expr, extra) in ctx.inputs.items():
                if kind == "float" and name in gnames:
                    soft.append(expr == GENERIC_INT[gi % len(GENERIC_INT)](fi))
                    fi += 1
                elif kind == "float":
                    g = GENERIC[gi % len(GENERIC)](fi)
                    fi += 1
                    soft.append(expr == z3.RealVal(str(Fraction(g))))
                    if extra is not None:
                        soft.append(z3.Not(extra))
                elif kind == "int":
                    g = GENERIC_INT[gi % len(GENERIC_INT)](ii)
                    ii += 1
                    soft.append(expr == g)
                elif kind == "str":
                    for k, c in enumerate(expr):
                        soft.append(c.expr == ord("abcdefghijklmnopqrstuvwxyz"[
                            (k * 7 + fi + gi) % 26]))
            lits = [z3.Bool("soft!%d!%d" % (gi, k)) for k in range(len(soft))]
            for l, e in zip(lits, soft):
                s.add(z3.Implies(l, e))
            # greedily keep as many soft constraints as possible
            active = list(lits)
            ok = False
            for _ in range(40):
                r = ctx._check(*active)
                if r == z3.sat:
                    ok = True
                    break
                if r != z3.unsat:
                    break
                c = set(str(x) for x in s.unsat_core())
                if not c:
                    break
                active = [l for l in active if str(l) not in c]
            if not ok:
                continue
            for l in active:
                s.add(l)
            m = solve_true(ctx)
            if m is not None:
                yield m
                continue
        finally:
            s.pop()
        m = solve_true(ctx)
        if m is not None:
            yield m
    m = solve_true(ctx)
    if m is not None:
        yield m
        return
    refuted = ctx.refuted
    s.push()
    try:
        snap(ctx)
        m = solve_true(ctx)
        if m is not None:
            yield m
    finally:
        s.pop()
        ctx.refuted = refuted       # of the unrestricted question


def values_of(ctx, m):
    out = {}
    for name, (kind, expr, extra) in ctx.inputs.items():
        if kind == "float":
            if extra is not None and z3.is_true(m.eval(extra, model_completion=True)):
                out[name] = "nan"
            else:
                out[name] = frac_to_float(eval_num(m, expr))
        elif kind == "int":
            out[name] = int(eval_num(m, expr))
        elif kind == "bool":
            out[name] = bool(z3.is_true(m.eval(expr, model_completion=True)))
        elif kind == "str":
            out[name] = "".join(chr(int(eval_num(m, c.expr))) for c in expr)
        else:
            raise AssertionError(kind)
    return out


def render(ctx, m, v):
    """Concrete counterpart of an observed symbolic value under model m."""
    if isinstance(v, SymStr):
        o = []
        for c in v.cells:
            if type(c) is str:
                o.append(c)
            elif type(c) is SChar:
                o.append(chr(int(eval_num(m, c.expr))))
            elif type(c) is NumTok:
                x = eval_num(m, c.e)
                o.append(c.spec % (int(x) if c.kind == "i" else frac_to_float(x)))
            else:
                # padding belongs to an adjacent numeral
                o.append("\0PAD")
        return "".join(o)
    if isinstance(v, SymBool):
        return bool(z3.is_true(m.eval(v.e, model_completion=True)))
    if isinstance(v, SymInt):
        return int(eval_num(m, v.e))
    if isinstance(v, SymFloat):
        if v.nan is not None and z3.is_true(m.eval(v.nan, model_completion=True)):
            return "nan"
        x = eval_num(m, v.e)
        return None if x is None else frac_to_float(x)
    if isinstance(v, (list, tuple)):
        return [render(ctx, m, x) for x in v]
    if isinstance(v, dict):
        return {str(k): render(ctx, m, x) for k, x in v.items()}
    if v is None or isinstance(v, (str, int, float, bool)):
        return "nan" if isinstance(v, float) and v != v else v
    if hasattr(v, "tolist") or hasattr(v, "values"):
        return render(ctx, m, (v if hasattr(v, "tolist") and not hasattr(v, "dims") else v.values).tolist())
    return str(v)
