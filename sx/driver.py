"""Harness drivers: the same harness function runs
  * symbolically (SymDriver) on the instrumented code, and
  * concretely (RealDriver) on the unmodified code, to replay a model.
"""
import importlib
import math
import os
import shutil
import sys

import z3
from . import core, hooks, vfs, symstr
from .core import (SymBool, SymInt, SymFloat, Sym, mkbool, mkint, PathInfeasible,
                   PathStop, Check, mask_of, PRINTABLE)
from .symstr import SymStr, SChar, mk, isstr


class Violation(Exception):
    pass


class Skip(Exception):
    """Replay left the assumed region."""


TEXT = PRINTABLE & ~mask_of("{}")
EDGE = TEXT & ~mask_of(" '\"")


class Driver:
    symbolic = False
    mask = staticmethod(mask_of)

    def keys(self, names):
        """Concrete dictionary keys which symbolic texts may equal."""

    TEXT = TEXT
    EDGE = EDGE
    WORD = TEXT & ~mask_of(" ,\"'")
    NOBRACKETS = TEXT & ~mask_of("()")
    # letters no numeral ("nan", "inf", ...) starts with
    ALPHA = mask_of("abcdefghjklmopqrstuvwxyzABCDEFGHJKLMOPQRSTUVWXYZ")

    def nappy(self, name="nappy"):
        return importlib.import_module(name)


class SymDriver(Driver):
    symbolic = True

    def __init__(self, ctx, params):
        self.ctx = ctx
        self.params = params
        self.fs = vfs.VFS()
        hooks.VFS = self.fs
        ctx.grid = []
        self.observed = []

    # -- inputs ---------------------------------------------------------------
    def _reg(self, name, kind, expr, extra=None):
        if name in self.ctx.inputs:
            raise RuntimeError("duplicate input " + name)
        self.ctx.inputs[name] = (kind, expr, extra)

    def float(self, name, lo=None, hi=None, nan=False):
        v = z3.Real(name)
        n = z3.Bool(name + ".nan") if nan else None
        if lo is not None:
            self.ctx.add(v >= core.to_num(core.Fraction(lo), v))
        if hi is not None:
            self.ctx.add(v <= core.to_num(core.Fraction(hi), v))
        if lo is None and hi is None:
            self.ctx.add(z3.And(v >= -10**15, v <= 10**15))
        self._reg(name, "float", v, n)
        return SymFloat(v, n)

    def grid(self, name, lo, hi):
        """A number; counterexamples prefer multiples of 1/4 (exact arithmetic)."""
        v = self.float(name, lo, hi)
        self.ctx.grid.append(v.e)
        return v

    def int(self, name, lo=-10**9, hi=10**9):
        if lo == hi:
            return lo
        v = z3.Int(name)
        self.ctx.add(z3.And(v >= lo, v <= hi))
        self._reg(name, "int", v)
        return SymInt(v)

    def bool(self, name):
        v = z3.Bool(name)
        self._reg(name, "bool", v)
        return SymBool(v)

    def choose(self, name, lo, hi):
        """A symbolic small integer, split into its values."""
        if lo == hi:
            return lo
        return self.int(name, lo, hi).__index__()

    def pick(self, name, seq):
        seq = list(seq)
        return seq[self.choose(name, 0, len(seq) - 1)]

    def str(self, name, n, mask=TEXT, first=EDGE, last=EDGE):
        """Symbolic string of exactly n characters."""
        cells = []
        for i in range(n):
            m = mask
            if i == 0:
                m &= first
            if i == n - 1:
                m &= last
            v = z3.Int("%s[%d]" % (name, i))
            self.ctx.dom[v.decl().name()] = m
            self.ctx.add(core.mask_expr(v, m))
            cells.append(SChar(v.decl().name(), v))
        self._reg(name, "str", cells)
        return mk(cells)

    def keys(self, names):
        self.ctx.hash_names = tuple(names)

    # -- assumptions and assertions -------------------------------------------------
    def assume(self, cond):
        if isinstance(cond, SymBool):
            self.ctx.add(cond.e)
            # keep exploring; feasibility is settled by the next solver query
            if self.ctx.pos >= self.ctx.replay_to and \
                    self.ctx._check() == z3.unsat:
                raise PathInfeasible()
        elif not cond:
            raise PathInfeasible()

    def check(self, cond, msg):
        if isinstance(cond, SymBool):
            e = cond.e
        else:
            e = bool(cond)
        self.ctx.checks.append(Check(e, msg))
        if e is False:
            raise PathStop()

    def fail(self, msg):
        self.check(False, msg)

    def eq(self, a, b):
        return deep_eq(a, b)

    def check_eq(self, a, b, msg, tol=None):
        self.check(deep_eq(a, b), msg)

    def observe(self, value):
        self.observed.append(value)

    def ite(self, c, a, b):
        """if-then-else over numbers without forking"""
        if not isinstance(c, SymBool):
            return a if c else b
        return core.ite(c, a, b)

    def all(self, conds):
        es = []
        for c in conds:
            if isinstance(c, SymBool):
                es.append(c.e)
            elif not c:
                return False
        return mkbool(z3.And(es)) if es else True

    def any(self, conds):
        es = []
        for c in conds:
            if isinstance(c, SymBool):
                es.append(c.e)
            elif c:
                return True
        return mkbool(z3.Or(es)) if es else False

    def neg(self, c):
        if isinstance(c, SymBool):
            return mkbool(z3.Not(c.e))
        return not c

    def number(self, text):
        return hooks.h_float(text)

    def isnan(self, x):
        return x.is_nan() if isinstance(x, SymFloat) else (x != x)

    # -- files -----------------------------------------------------------------------
    def put(self, path, text):
        self.fs.put(path, text)

    def text(self, path):
        return self.fs.text(path)

    def exists(self, path):
        return self.fs.exists(path)

    def fresh(self):
        """code under test as if just imported, and no files"""
        from . import state
        state.restore()
        self.fs = vfs.VFS()
        hooks.VFS = self.fs

    def files(self):
        return list(self.fs.files)


def same_kind_num(x):
    return isinstance(x, (int, float, SymInt, SymFloat, SymBool)) or core._isnum(x)


def deep_eq(a, b):
    es = []
    if not _deq(a, b, es):
        return False
    return mkbool(z3.And(es)) if es else True


def _deq(a, b, es):
    if isinstance(a, (list, tuple)):
        if not isinstance(b, (list, tuple)) or len(a) != len(b):
            return False
        return all(_deq(x, y, es) for x, y in zip(a, b))
    if isinstance(a, dict):
        if not isinstance(b, dict) or set(a) != set(b):
            return False
        return all(_deq(a[k], b[k], es) for k in a)
    if isstr(a) or isstr(b):
        if not (isstr(a) and isstr(b)):
            return False
        r = a == b
        if isinstance(r, SymBool):
            es.append(r.e)
            return True
        return bool(r)
    if a is None or b is None:
        return a is None and b is None
    if same_kind_num(a) and same_kind_num(b):
        ea, na = core.real_of(a)
        eb, nb = core.real_of(b)
        if ea is None or eb is None:
            return ea is None and eb is None and na == nb
        if na is None and nb is None:
            es.append(ea == eb)
        else:
            na = z3.BoolVal(False) if na is None else na
            nb = z3.BoolVal(False) if nb is None else nb
            es.append(z3.And(na == nb, z3.Or(na, ea == eb)))
        return True
    r = a == b
    if isinstance(r, SymBool):
        es.append(r.e)
        return True
    return bool(r)


# ------------------------------------------------------------------------------------
class RealDriver(Driver):
    """Replays one concrete assignment in a scratch directory."""
    symbolic = False

    def __init__(self, params, values, scratch):
        self.params = params
        self.values = values
        self.scratch = scratch
        self.observed = []
        self.nchecks = 0

    def _get(self, name):
        if name not in self.values:
            raise Skip("no value for input %s" % name)
        return self.values[name]

    def float(self, name, lo=None, hi=None, nan=False):
        v = self._get(name)
        v = float("nan") if v == "nan" else float(v)
        return v

    def grid(self, name, lo, hi):
        return self.float(name)

    def int(self, name, lo=-10**9, hi=10**9):
        if lo == hi:
            return lo
        return int(self._get(name))

    def bool(self, name):
        return bool(self._get(name))

    def choose(self, name, lo, hi):
        if lo == hi:
            return lo
        return int(self._get(name))

    def pick(self, name, seq):
        seq = list(seq)
        return seq[self.choose(name, 0, len(seq) - 1)]

    def str(self, name, n, mask=None, first=None, last=None):
        return self._get(name)

    def assume(self, cond):
        if not cond:
            raise Skip("assumption")

    def check(self, cond, msg):
        self.nchecks += 1
        if not cond:
            raise Violation(msg)

    def fail(self, msg):
        raise Violation(msg)

    def eq(self, a, b):
        return real_eq(a, b, 1e-13)

    def check_eq(self, a, b, msg, tol=1e-13):
        self.nchecks += 1
        if not real_eq(a, b, tol):
            raise Violation("%s: %s != %s" % (msg, _short(a), _short(b)))

    def observe(self, value):
        self.observed.append(value)

    def ite(self, c, a, b):
        return a if c else b

    def all(self, conds):
        return all(bool(c) for c in conds)

    def any(self, conds):
        return any(bool(c) for c in conds)

    def neg(self, c):
        return not c

    def number(self, text):
        return float(text)

    def isnan(self, x):
        return x != x

    def put(self, path, text):
        with open(path, "w", newline="\n") as f:
            f.write(text)

    def text(self, path):
        with open(path) as f:
            return f.read()

    def exists(self, path):
        return os.path.isfile(path)

    def fresh(self):
        for m in list(sys.modules):
            if m == "nappy" or m.startswith("nappy."):
                del sys.modules[m]
        if os.path.realpath(os.getcwd()) != os.path.realpath(self.scratch):
            raise RuntimeError("not in the scratch directory")
        for f in os.listdir("."):
            shutil.rmtree(f) if os.path.isdir(f) else os.unlink(f)

    def files(self):
        return sorted(f for f in os.listdir(".") if os.path.isfile(f))


def _short(x):
    s = repr(x)
    return s if len(s) < 300 else s[:300] + "..."


def real_eq(a, b, tol):
    if isinstance(a, (list, tuple)):
        return isinstance(b, (list, tuple)) and len(a) == len(b) and \
            all(real_eq(x, y, tol) for x, y in zip(a, b))
    if isinstance(a, dict):
        return isinstance(b, dict) and set(a) == set(b) and \
            all(real_eq(a[k], b[k], tol) for k in a)
    if isinstance(a, str) or isinstance(b, str):
        return isinstance(a, str) and isinstance(b, str) and a == b
    if a is None or b is None:
        return a is None and b is None
    try:
        fa, fb = float(a), float(b)
    except (TypeError, ValueError):
        return bool(a == b)
    if fa != fa or fb != fb:
        return fa != fa and fb != fb
    if fa == fb:
        return True
    return abs(fa - fb) <= (tol or 1e-13) * max(abs(fa), abs(fb))
