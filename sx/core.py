"""Path exploration engine and symbolic value proxies.

The code under test (nappy, instrumented by sx.loader) is executed on proxy
values.  Every branch on a proxy becomes a *decision*; the explorer re-executes
the harness once per feasible sequence of decisions (depth first), keeping the
path condition in an incremental z3 solver.  Assertions made by a harness are
collected per path and discharged by one solver query:  PC /\\ not(all asserts).
"""
import sys
import time
from fractions import Fraction

import z3

# --------------------------------------------------------------------------
# control flow exceptions: BaseException so that the code under test (and the
# harness) cannot swallow them with "except Exception".


class EngineExit(BaseException):
    pass


class PathInfeasible(EngineExit):
    """assume() failed: abandon this path."""


class PathStop(EngineExit):
    """Harness asked to stop this path early (after a failed check)."""


class Budget(EngineExit):
    """Exploration budget exhausted (inconclusive)."""


class Unsupported(EngineExit):
    """The engine cannot represent an operation (inconclusive)."""


class NonTermination(EngineExit):
    """The code under test exceeded the loop bound on this path."""


CTX = None          # current Context


def ctx():
    return CTX


# --------------------------------------------------------------------------
MAXCODE = 128
ALLMASK = (1 << MAXCODE) - 1


def mask_of(chars):
    m = 0
    for c in chars:
        o = ord(c)
        if o < MAXCODE:
            m |= 1 << o
    return m


def ranges_of(mask):
    out = []
    o = 0
    while o < MAXCODE:
        if mask >> o & 1:
            s = o
            while o < MAXCODE and mask >> o & 1:
                o += 1
            out.append((s, o - 1))
        else:
            o += 1
    return out


WS = mask_of(" \t\n\r\x0b\x0c\x1c\x1d\x1e\x1f")
PRINTABLE = mask_of("".join(chr(i) for i in range(32, 127)))


def mask_expr(v, mask):
    return z3.Or([z3.And(v >= a, v <= b) if a != b else v == a
                  for a, b in ranges_of(mask)])


class Stats:
    def __init__(self):
        self.paths = 0
        self.decisions = 0
        self.queries = 0
        self.solver_s = 0.0
        self.obligations = 0
        self.final_queries = 0
        self.unknown = 0
        self.infeasible = 0
        self.pins = {}
        self.functions = set()
        self.max_tick = 0
        self.reached = {}


class Check:
    __slots__ = ("cond", "msg")

    def __init__(self, cond, msg):
        self.cond = cond
        self.msg = msg


class Context:
    """State of one exploration (one harness case)."""

    def __init__(self, max_paths=20000, max_s=600.0, tick_limit=20000,
                 query_ms=30000):
        self.solver = z3.Solver()
        self.solver.set("timeout", query_ms)
        self.stats = Stats()
        self.max_paths = max_paths
        self.deadline = time.monotonic() + max_s
        self.tick_limit = tick_limit
        self.trace = []        # list of [outcome(bool), both_feasible(bool)]
        self.level = 0         # pushes currently on the solver
        self.reset_path()
        self.violations = []
        self.symbolic = True
        self.base_dom = {}
        self.fmt_funcs = {}
        self.P = z3.Function("Parse", z3.IntSort(), z3.RealSort())
        self.L = z3.Function("Len", z3.IntSort(), z3.IntSort())
        self.text_ids = {}

    # -- per path -----------------------------------------------------------
    def reset_path(self):
        self.pos = 0
        self.checks = []
        self.inputs = {}
        self.input_order = []
        self.dom = {}
        self.counters = {}
        self.ticks = 0
        self.model = None
        self.fmt_apps = []      # (spec, kind, expr, idexpr)
        self.choices = {}
        self.notes = []
        self.hash_names = ()

    # replaying[pos < len(prefix)]: solver state already has everything up to
    # (and excluding) the decision that was flipped.
    @property
    def live(self):
        return self.pos >= self.replay_to

    def add(self, e):
        """Assert a fact on the current path."""
        if self.pos >= self.replay_to:
            self.solver.add(e)
            if self.model is not None and not z3.is_true(
                    self.model.eval(e, model_completion=True)):
                self.model = None

    def _check(self, *assumptions):
        t = time.monotonic()
        r = self.solver.check(*assumptions)
        self.stats.queries += 1
        self.stats.solver_s += time.monotonic() - t
        if r == z3.unknown:
            self.stats.unknown += 1
        return r

    def _push(self, e):
        self.solver.push()
        self.level += 1
        self.solver.add(e)

    def decide(self, cond_true, cond_false, feasible_true=None,
               feasible_false=None):
        """One binary decision. feasible_* None = ask the solver."""
        if self.pos < len(self.trace) and self.pos < self.replay_to:
            out = self.trace[self.pos][0]
            self.pos += 1
            return out
        if self.pos < len(self.trace):
            # this is the flipped decision: take stored outcome
            out = self.trace[self.pos][0]
            self.pos += 1
            self.replay_to = self.pos
            self._push(cond_true if out else cond_false)
            self.model = None
            return out
        if time.monotonic() > self.deadline:
            raise Budget("time")
        self.stats.decisions += 1
        mv = None
        if feasible_true is None or feasible_false is None:
            if self.model is None:
                r = self._check()
                if r == z3.sat:
                    self.model = self.solver.model()
                elif r == z3.unsat:
                    raise PathInfeasible()
            if self.model is not None:
                v = self.model.eval(cond_true, model_completion=True)
                if z3.is_true(v):
                    mv = True
                elif z3.is_false(v):
                    mv = False
        if feasible_true is None:
            feasible_true = True if mv is True else \
                self._check(cond_true) != z3.unsat
        if feasible_false is None:
            feasible_false = True if mv is False else \
                self._check(cond_false) != z3.unsat
        if not feasible_true and not feasible_false:
            raise PathInfeasible()
        out = bool(feasible_true)
        both = bool(feasible_true and feasible_false)
        self.trace.append([out, both])
        self.pos += 1
        self.replay_to = self.pos
        self._push(cond_true if out else cond_false)
        if mv is not None and mv != out:
            self.model = None
        elif mv is None:
            self.model = None
        return out

    def fork(self, cond):
        """Branch on a z3 Bool; returns a python bool."""
        cond = z3.simplify(cond)
        if z3.is_true(cond):
            return True
        if z3.is_false(cond):
            return False
        return self.decide(cond, z3.Not(cond))

    def char_in(self, ch, mask):
        d = self.dom[ch.name]
        yes = d & mask
        if not yes:
            return False
        no = d & ~mask
        if not no:
            return True
        out = self.decide(mask_expr(ch.expr, yes), mask_expr(ch.expr, no),
                          True, True)
        self.dom[ch.name] = yes if out else no
        return out

    def fresh(self, stem):
        n = self.counters.get(stem, 0)
        self.counters[stem] = n + 1
        return "%s!%d" % (stem, n)

    def tick(self):
        self.ticks += 1
        if self.ticks > self.tick_limit:
            raise NonTermination()
        if self.ticks & 0x3ff == 0 and time.monotonic() > self.deadline:
            raise Budget("time")

    def pin_note(self, what):
        self.stats.pins[what] = self.stats.pins.get(what, 0) + 1

    def some_model(self):
        if self.model is None:
            r = self._check()
            if r == z3.unsat:
                raise PathInfeasible()
            if r != z3.sat:
                raise Unsupported("no model for pin")
            self.model = self.solver.model()
        return self.model

    def pin(self, expr, what):
        """Concretise an expression to one value (records incompleteness)."""
        e = z3.simplify(expr)
        v = num_value(e)
        if v is not None:
            return v
        self.pin_note(what)
        key = ("pin", self.pos, str(e))
        # deterministic on replay: pinned values are remembered in the trace
        if self.pos < self.replay_to:
            ent = self.trace[self.pos]
            self.pos += 1
            return ent[2]
        m = self.some_model()
        v = num_value(m.eval(e, model_completion=True))
        if v is None:
            raise Unsupported("pin: non numeric model value")
        self.trace.append([True, False, v])
        self.pos += 1
        self.replay_to = self.pos
        self._push(e == to_num(v, e))
        return v

    # -- ids for formatted numbers -------------------------------------------
    def fmt_fun(self, spec, kind):
        key = (spec, kind)
        f = self.fmt_funcs.get(key)
        if f is None:
            f = z3.Function("Fmt[%s|%s]" % key, z3.RealSort(), z3.IntSort())
            self.fmt_funcs[key] = f
        return f

    def text_id(self, text):
        """Identity of a concrete numeral text."""
        i = self.text_ids.get(text)
        if i is None:
            i = -1 - len(self.text_ids)
            self.text_ids[text] = i
        e = z3.IntVal(i)
        try:
            v = float(text)
            if v == v and v not in (float("inf"), float("-inf")):
                self.add(self.P(e) == z3.RealVal(str(Fraction(v))))
        except ValueError:
            pass
        self.add(self.L(e) == len(text))
        return e

    # -- exploration ----------------------------------------------------------
    def explore(self, fn):
        """Run fn() over all feasible paths.  fn gets no arguments."""
        global CTX
        old = CTX
        CTX = self
        self.replay_to = 0
        try:
            while True:
                self.reset_path()
                status = "done"
                err = None
                try:
                    fn()
                except PathInfeasible:
                    status = "infeasible"
                except PathStop:
                    status = "stopped"
                if status == "infeasible":
                    self.stats.infeasible += 1
                else:
                    self.stats.paths += 1
                    if not self.finish_path():
                        return
                    self.stats.max_tick = max(self.stats.max_tick, self.ticks)
                # next path
                while self.trace and not (self.trace[-1][1]):
                    self.trace.pop()
                if not self.trace:
                    return
                last = self.trace[-1]
                last[0] = not last[0]
                last[1] = False
                want = len(self.trace) - 1
                if self.level > want:
                    self.solver.pop(self.level - want)
                    self.level = want
                self.replay_to = want
                if self.stats.paths + self.stats.infeasible > self.max_paths:
                    raise Budget("paths")
                if time.monotonic() > self.deadline:
                    raise Budget("time")
        finally:
            CTX = old

    on_violation = None   # callback(ctx, failing_checks) -> bool (stop?)

    def finish_path(self):
        """Discharge the assertions of this path. False = stop exploring."""
        if not self.checks:
            return True
        self.stats.obligations += len(self.checks)
        self.stats.final_queries += 1
        conds = []
        for c in self.checks:
            e = c.cond
            if isinstance(e, bool):
                e = z3.BoolVal(e)
            conds.append(e)
        self.solver.push()
        self.solver.add(z3.Not(z3.And(conds)))
        r = self._check()
        try:
            if r == z3.unsat:
                return True
            if r == z3.unknown:
                # try the obligations one at a time
                bad = []
                for e in conds:
                    self.solver.pop()
                    self.solver.push()
                    self.solver.add(z3.Not(e))
                    r = self._check()
                    if r == z3.unknown:
                        raise Unsupported("solver unknown on an obligation")
                    if r == z3.sat:
                        bad.append(e)
                        break
                if not bad:
                    self.stats.unknown -= 1
                    return True
            return self.on_violation(self, conds)
        finally:
            self.solver.pop()


def num_value(e):
    if z3.is_int_value(e):
        return e.as_long()
    if z3.is_rational_value(e):
        return Fraction(e.numerator_as_long(), e.denominator_as_long())
    if z3.is_algebraic_value(e):
        a = e.approx(20)
        return Fraction(a.numerator_as_long(), a.denominator_as_long())
    return None


def to_num(v, like):
    if z3.is_int(like):
        return z3.IntVal(int(v))
    return z3.RealVal(str(Fraction(v)))


def frac_to_float(v):
    if isinstance(v, int):
        return float(v)
    return v.numerator / v.denominator


# --------------------------------------------------------------------------
class Sym:
    """Base of all proxies."""
    __slots__ = ()

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self


class SymBool(Sym):
    __slots__ = ("e",)
    pytype = bool

    def __init__(self, e):
        self.e = e

    def __bool__(self):
        return CTX.fork(self.e)

    def __eq__(self, o):
        return mkbool(self.e == bexpr(o))

    def __ne__(self, o):
        return mkbool(self.e != bexpr(o))

    def __hash__(self):
        return hash(bool(self))

    def __and__(self, o):
        if isinstance(o, (bool, SymBool)):
            return mkbool(z3.And(self.e, bexpr(o)))
        return NotImplemented
    __rand__ = __and__

    def __or__(self, o):
        if isinstance(o, (bool, SymBool)):
            return mkbool(z3.Or(self.e, bexpr(o)))
        return NotImplemented
    __ror__ = __or__

    def __invert__(self):
        return ~int(bool(self))

    def __int__(self):
        return int(bool(self))

    __index__ = __int__

    def __add__(self, o):
        return SymInt(z3.If(self.e, 1, 0)) + o
    __radd__ = __add__

    def __repr__(self):
        return "SymBool(%s)" % self.e


def bexpr(o):
    if isinstance(o, SymBool):
        return o.e
    return z3.BoolVal(bool(o))


def mkbool(e):
    if isinstance(e, bool):
        return e
    e = z3.simplify(e)
    if z3.is_true(e):
        return True
    if z3.is_false(e):
        return False
    return SymBool(e)


def mkint(e):
    e = z3.simplify(e)
    if z3.is_int_value(e):
        return e.as_long()
    return SymInt(e)


class SymInt(Sym):
    __slots__ = ("e",)
    pytype = int

    def __init__(self, e):
        self.e = e

    # arithmetic
    def _bin(self, o, f, swap=False):
        if isinstance(o, SymBool):
            o = int(bool(o))
        if isinstance(o, bool):
            o = int(o)
        if isinstance(o, int):
            b = z3.IntVal(o)
        elif isinstance(o, SymInt):
            b = o.e
        else:
            return None
        return mkint(f(b, self.e) if swap else f(self.e, b))

    def _asfloat(self):
        return SymFloat(z3.ToReal(self.e))

    def __add__(self, o):
        r = self._bin(o, lambda a, b: a + b)
        return self._asfloat() + o if r is None else r

    def __radd__(self, o):
        r = self._bin(o, lambda a, b: a + b, True)
        return o + self._asfloat() if r is None and _isnum(o) else \
            (NotImplemented if r is None else r)

    def __sub__(self, o):
        r = self._bin(o, lambda a, b: a - b)
        return self._asfloat() - o if r is None else r

    def __rsub__(self, o):
        r = self._bin(o, lambda a, b: a - b, True)
        return o - self._asfloat() if r is None and _isnum(o) else \
            (NotImplemented if r is None else r)

    def __mul__(self, o):
        if isinstance(o, (str, list, tuple)) or getattr(o, "pytype", None) is str:
            return o * self.__index__()
        r = self._bin(o, lambda a, b: a * b)
        return self._asfloat() * o if r is None else r
    __rmul__ = __mul__

    def __truediv__(self, o):
        return self._asfloat() / o

    def __rtruediv__(self, o):
        return o / self._asfloat()

    def _div(self, o, mod):
        if isinstance(o, int) and o > 0:
            return mkint(self.e % o if mod else self.e / o)
        if isinstance(o, SymInt):
            if o > 0:
                return mkint(self.e % o.e if mod else self.e / o.e)
            if o == 0:
                raise ZeroDivisionError("integer division or modulo by zero")
        if isinstance(o, int) and o == 0:
            raise ZeroDivisionError("integer division or modulo by zero")
        if isinstance(o, (float, SymFloat)):
            f = self._asfloat()
            return f % o if mod else f // o
        v = self.__index__()
        return v % o if mod else v // o

    def __floordiv__(self, o):
        return self._div(o, False)

    def __mod__(self, o):
        return self._div(o, True)

    def __rfloordiv__(self, o):
        return o // self.__index__()

    def __rmod__(self, o):
        return o % self.__index__()

    def __divmod__(self, o):
        return (self // o, self % o)

    def __pow__(self, o):
        return self.__index__() ** o

    def __rpow__(self, o):
        return o ** self.__index__()

    def __neg__(self):
        return mkint(-self.e)

    def __pos__(self):
        return self

    def __abs__(self):
        return mkint(z3.If(self.e >= 0, self.e, -self.e))

    def _cmp(self, o, f):
        if isinstance(o, SymBool):
            o = int(bool(o))
        if isinstance(o, bool):
            o = int(o)
        if isinstance(o, int):
            return mkbool(f(self.e, z3.IntVal(o)))
        if isinstance(o, SymInt):
            return mkbool(f(self.e, o.e))
        if isinstance(o, (float, SymFloat)) or _isnum(o):
            return self._asfloat()._cmp(o, f)
        return None

    def __eq__(self, o):
        r = self._cmp(o, lambda a, b: a == b)
        return NotImplemented if r is None else r

    def __ne__(self, o):
        r = self._cmp(o, lambda a, b: a != b)
        return NotImplemented if r is None else r

    def __lt__(self, o):
        r = self._cmp(o, lambda a, b: a < b)
        return NotImplemented if r is None else r

    def __le__(self, o):
        r = self._cmp(o, lambda a, b: a <= b)
        return NotImplemented if r is None else r

    def __gt__(self, o):
        r = self._cmp(o, lambda a, b: a > b)
        return NotImplemented if r is None else r

    def __ge__(self, o):
        r = self._cmp(o, lambda a, b: a >= b)
        return NotImplemented if r is None else r

    def __bool__(self):
        return CTX.fork(self.e != 0)

    def __hash__(self):
        return hash(self.__index__())

    def __index__(self):
        """Enumerate feasible values by forking."""
        e = z3.simplify(self.e)
        v = num_value(e)
        if v is not None:
            return v
        c = CTX
        n = 0
        while True:
            # deterministic choice of candidate: smallest feasible value is
            # found by asking the solver (recorded in the trace for replays)
            if c.pos < c.replay_to or c.pos < len(c.trace):
                ent = c.trace[c.pos]
                v = ent[2]
                if c.decide(e == v, e != v):
                    return v
            else:
                m = c.some_model()
                v = num_value(m.eval(e, model_completion=True))
                pos = c.pos
                r = c.decide(e == v, e != v)
                if len(c.trace[pos]) == 2:
                    c.trace[pos].append(v)
                if r:
                    return v
            n += 1
            if n > 200:
                raise Unsupported("integer with more than 200 values used as "
                                  "an index or a loop bound")

    __int__ = __index__

    def __float__(self):
        return float(frac_to_float(CTX.pin(self.e, "float(int)")))

    def __round__(self, n=None):
        return self

    def __trunc__(self):
        return self

    def __str__(self):
        return str(CTX.pin(self.e, "native str() of a symbolic int"))

    def __repr__(self):
        return "SymInt(%s)" % self.e

    def __format__(self, spec):
        return format(CTX.pin(self.e, "native format() of a symbolic int"), spec)

    def is_integer(self):
        return True


def _isnum(o):
    if isinstance(o, (int, float)):
        return True
    t = type(o)
    return t.__module__ == "numpy" and hasattr(o, "dtype") and \
        getattr(o, "ndim", 1) == 0 and o.dtype.kind in "biuf"


def real_of(o):
    """z3 real, isnan expr (or None) for a python/numpy/proxy number."""
    if isinstance(o, SymFloat):
        return o.e, o.nan
    if isinstance(o, SymInt):
        return z3.ToReal(o.e), None
    if isinstance(o, SymBool):
        return z3.If(o.e, z3.RealVal(1), z3.RealVal(0)), None
    if isinstance(o, bool):
        return z3.RealVal(int(o)), None
    if isinstance(o, int):
        return z3.RealVal(o), None
    if _isnum(o):
        o = float(o)
        if o != o:
            return z3.RealVal(0), z3.BoolVal(True)
        if o in (float("inf"), float("-inf")):
            return None, o
        return z3.RealVal(str(Fraction(o))), None
    return None, None


def nor(a, b):
    if a is None:
        return b
    if b is None:
        return a
    return z3.Or(a, b)


class SymFloat(Sym):
    """A finite real (or NaN if .nan is set)."""
    __slots__ = ("e", "nan")
    pytype = float

    def __init__(self, e, nan=None):
        self.e = e
        self.nan = nan

    def is_nan(self):
        if self.nan is None:
            return False
        return mkbool(self.nan)

    def _bin(self, o, f, swap=False):
        if isinstance(o, (str, list, tuple, dict)) or o is None:
            return NotImplemented
        b, bn = real_of(o)
        if b is None:
            if isinstance(bn, float):       # infinity
                raise Unsupported("arithmetic with infinity")
            return NotImplemented
        e = f(b, self.e) if swap else f(self.e, b)
        return SymFloat(z3.simplify(e), nor(self.nan, bn))

    def __add__(self, o):
        return self._bin(o, lambda a, b: a + b)

    def __radd__(self, o):
        return self._bin(o, lambda a, b: a + b, True)

    def __sub__(self, o):
        return self._bin(o, lambda a, b: a - b)

    def __rsub__(self, o):
        return self._bin(o, lambda a, b: a - b, True)

    def __mul__(self, o):
        return self._bin(o, lambda a, b: a * b)

    def __rmul__(self, o):
        return self._bin(o, lambda a, b: a * b, True)

    def __truediv__(self, o):
        if isinstance(o, Sym) or _isnum(o):
            if o == 0:
                raise ZeroDivisionError("float division by zero")
        return self._bin(o, lambda a, b: a / b)

    def __rtruediv__(self, o):
        if not (isinstance(o, Sym) or _isnum(o)):
            return NotImplemented
        if self == 0:
            raise ZeroDivisionError("float division by zero")
        return self._bin(o, lambda a, b: a / b, True)

    def __floordiv__(self, o):
        q = self.__truediv__(o)
        return SymFloat(z3.ToReal(z3.ToInt(q.e)), q.nan)

    def __rfloordiv__(self, o):
        q = self.__rtruediv__(o)
        return SymFloat(z3.ToReal(z3.ToInt(q.e)), q.nan)

    def __mod__(self, o):
        return self - (self // o) * o

    def __rmod__(self, o):
        return o - (o // self) * self

    def __pow__(self, o):
        if isinstance(o, int) and 0 <= o <= 4:
            r = 1.0
            for _ in range(o):
                r = self * r
            return r
        return self.__float__() ** o

    def __rpow__(self, o):
        return o ** self.__float__()

    def __neg__(self):
        return SymFloat(z3.simplify(-self.e), self.nan)

    def __pos__(self):
        return self

    def __abs__(self):
        return SymFloat(z3.If(self.e >= 0, self.e, -self.e), self.nan)

    def _cmp(self, o, f, ne=False):
        if isinstance(o, (str, list, tuple, dict)) or o is None:
            return None
        b, bn = real_of(o)
        if b is None:
            if isinstance(bn, float):       # +-infinity: self is finite or nan
                inf = bn
                r = f(z3.RealVal(0), z3.RealVal(1 if inf > 0 else -1))
                r = z3.simplify(r)
                if self.nan is None:
                    return mkbool(r)
                return mkbool(z3.Or(r, self.nan) if ne
                              else z3.And(r, z3.Not(self.nan)))
            return None
        n = nor(self.nan, bn)
        r = f(self.e, b)
        if n is not None:
            r = z3.Or(r, n) if ne else z3.And(r, z3.Not(n))
        return mkbool(r)

    def __eq__(self, o):
        r = self._cmp(o, lambda a, b: a == b)
        return NotImplemented if r is None else r

    def __ne__(self, o):
        r = self._cmp(o, lambda a, b: a != b, True)
        return NotImplemented if r is None else r

    def __lt__(self, o):
        r = self._cmp(o, lambda a, b: a < b)
        return NotImplemented if r is None else r

    def __le__(self, o):
        r = self._cmp(o, lambda a, b: a <= b)
        return NotImplemented if r is None else r

    def __gt__(self, o):
        r = self._cmp(o, lambda a, b: a > b)
        return NotImplemented if r is None else r

    def __ge__(self, o):
        r = self._cmp(o, lambda a, b: a >= b)
        return NotImplemented if r is None else r

    def __bool__(self):
        r = self.__ne__(0)
        return r if isinstance(r, bool) else bool(r)

    def __hash__(self):
        return 0x51F

    def trunc(self):
        if self.nan is not None and mkbool(self.nan):
            raise ValueError("cannot convert float NaN to integer")
        e = z3.simplify(self.e)
        if z3.is_app(e) and e.decl().kind() == z3.Z3_OP_TO_REAL:
            return mkint(e.arg(0))
        return mkint(z3.If(e >= 0, z3.ToInt(e), -z3.ToInt(-e)))

    def __trunc__(self):
        return self.trunc()

    def floor(self):
        return mkint(z3.ToInt(self.e))

    __floor__ = floor

    def __ceil__(self):
        return mkint(-z3.ToInt(-self.e))

    def __round__(self, n=None):
        if n is None:
            # round half to even
            f = z3.ToInt(self.e)
            d = self.e - z3.ToReal(f)
            return mkint(z3.If(d < 0.5, f, z3.If(d > 0.5, f + 1,
                         z3.If(f % 2 == 0, f, f + 1))))
        v = self.__float__()
        return round(v, n)

    def is_integer(self):
        return mkbool(z3.IsInt(self.e))

    def __float__(self):
        if self.nan is not None and mkbool(self.nan):
            return float("nan")
        return float(frac_to_float(CTX.pin(self.e, "native float() of a symbolic float")))

    def __int__(self):
        return int(self.__float__())

    def __str__(self):
        return str(self.__float__())

    def __repr__(self):
        return "SymFloat(%s)" % self.e

    def __format__(self, spec):
        return format(self.__float__(), spec)

    # numpy-ish attributes
    @property
    def real(self):
        return self

    def item(self):
        return self

    def conjugate(self):
        return self


def is_sym(x):
    return isinstance(x, Sym)


def has_sym(x, depth=3):
    if isinstance(x, Sym):
        return True
    if depth and isinstance(x, (list, tuple)):
        for i in x:
            if has_sym(i, depth - 1):
                return True
    elif depth and isinstance(x, dict):
        for k, v in x.items():
            if isinstance(k, Sym) or has_sym(v, depth - 1):
                return True
    return False


def ite(c, a, b):
    """if-then-else over numbers without forking"""
    ea, na = real_of(a)
    eb, nb = real_of(b)
    n = None
    if na is not None or nb is not None:
        n = z3.If(c.e, na if na is not None else z3.BoolVal(False),
                  nb if nb is not None else z3.BoolVal(False))
    if isinstance(a, (int, SymInt)) and isinstance(b, (int, SymInt)):
        return mkint(z3.If(c.e, to_num(a, z3.IntVal(0)) if isinstance(a, int) else a.e,
                           to_num(b, z3.IntVal(0)) if isinstance(b, int) else b.e))
    return SymFloat(z3.If(c.e, ea, eb), n)
