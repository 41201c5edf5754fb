"""Run-time hooks called by the instrumented source."""
import builtins
import functools
import io
import math
import operator
import os
import re
import string as _string
import sys
import warnings
import collections

import z3
from . import core, fmt, rx, vfs as vfsmod, symstr
from .core import (Sym, SymBool, SymInt, SymFloat, mkbool, mkint, has_sym,
                   Unsupported, EngineExit)
from .symstr import SymStr, mk, cells_of, isstr

VFS = None          # current VFS (set per path)
EXTRA = {}          # id(f) -> handler, registered by environment stubs
NONE = object()


def pytype(x):
    return x.pytype if isinstance(x, Sym) else type(x)


# -- builtins -----------------------------------------------------------------
def h_type(*a):
    if len(a) == 1:
        return pytype(a[0])
    return type(*a)


def h_isinstance(x, t):
    if isinstance(x, Sym):
        ts = t if isinstance(t, tuple) else (t,)
        for k in ts:
            if isinstance(k, tuple):
                if h_isinstance(x, k):
                    return True
                continue
            try:
                if issubclass(x.pytype, k):
                    return True
            except TypeError:
                if builtins.isinstance(x, k):
                    return True
        return False
    if isinstance(x, vfsmod.SymTextFile):
        ts = t if isinstance(t, tuple) else (t,)
        if any(k in (io.StringIO, io.TextIOBase, io.IOBase, io.TextIOWrapper)
               for k in ts):
            return True
    return builtins.isinstance(x, t)


def h_len(x):
    if isinstance(x, SymStr):
        return x.symlen()
    return len(x)


def h_str(*a, **k):
    if not a:
        return ""
    if len(a) == 1:
        return fmt.to_str(a[0])
    return str(*a, **k)


def h_repr(x):
    return fmt.to_repr(x)


def h_int(*a, **k):
    if not a:
        return 0
    x = a[0]
    if isinstance(x, SymStr):
        if len(a) > 1:
            return int(x.realize("int(base)"), *a[1:])
        return symstr.parse_int(x)
    if isinstance(x, SymInt):
        return x
    if isinstance(x, SymFloat):
        return x.trunc()
    if isinstance(x, SymBool):
        return mkint(z3.If(x.e, 1, 0))
    return int(*a, **k)


def h_float(*a):
    if not a:
        return 0.0
    x = a[0]
    if isinstance(x, SymStr):
        return symstr.parse_float(x)
    if isinstance(x, SymFloat):
        return x
    if isinstance(x, (SymInt, SymBool)):
        return SymFloat(core.real_of(x)[0])
    h = getattr(type(x), "__sx_float__", None)
    if h:
        return h(x)
    if type(x).__module__ == "numpy" and getattr(x, "dtype", None) is not None \
            and x.dtype == object and getattr(x, "size", 0) == 1:
        return h_float(x.item() if hasattr(x, "item") else x)
    return float(x)


def h_bool(*a):
    if not a:
        return False
    x = a[0]
    if isinstance(x, SymBool):
        return x
    return bool(x)


def h_round(x, *n):
    return x.__round__(*n) if isinstance(x, Sym) else round(x, *n)


def h_chr(x):
    if isinstance(x, SymInt):
        return chr(x.__index__())
    return chr(x)


def h_ord(x):
    if isinstance(x, SymStr):
        if len(x.cells) != 1:
            raise TypeError("ord() expected a character")
        c = x.cells[0]
        if type(c) is symstr.SChar:
            return mkint(c.expr)
        raise Unsupported("ord of token")
    return ord(x)


def wrapf(f):
    """A python function that calls f through the hook."""
    if f is None or isinstance(f, type(wrapf)):
        return f
    return lambda *a, **k: call(f, *a, **k)


def h_map(f, *its):
    for args in zip(*its):
        yield call(f, *args)


def h_filter(f, it):
    for x in it:
        if (x if f is None else call(f, x)):
            yield x


def h_sorted(it, key=None, reverse=False):
    return sorted(it, key=wrapf(key), reverse=reverse)


def _minmax(which):
    real = max if which else min

    def h(*a, **k):
        key = k.get("key")
        items = list(a[0]) if len(a) == 1 else list(a)
        if not has_sym(items) and key is None:
            # (a generator given as argument is used up by now)
            return real(items, **k)
        if not items:
            if "default" in k:
                return k["default"]
            raise ValueError("%s() arg is an empty sequence" % real.__name__)
        kf = wrapf(key) if key else (lambda x: x)
        best = items[0]
        bk = kf(best)
        for x in items[1:]:
            kx = kf(x)
            if (kx > bk) if which else (kx < bk):
                best, bk = x, kx
        return best
    return h


def h_sum(it, start=0):
    r = start
    for x in it:
        r = r + x
    return r


def h_open(*a, **k):
    if VFS is None:
        return open(*a, **k)
    return VFS.open(*a, **k)


def h_isfile(p):
    if VFS is None:
        return os.path.isfile(p)
    return VFS.exists(p) or (isinstance(p, str) and p.startswith("/")
                             and os.path.isfile(p))


def h_remove(p):
    return VFS.remove(p)


def h_listdir(p="."):
    return [k for k in VFS.files]


def h_print(*a, **k):
    f = k.get("file")
    if isinstance(f, vfsmod.SymTextFile):
        sep = k.get("sep", " ")
        end = k.get("end", "\n")
        f.write(symstr.str_join(" " if sep is None else sep,
                                [fmt.to_str(x) for x in a]))
        f.write("\n" if end is None else end)
        return
    if f is None:
        PRINTED.append(a)


PRINTED = []


def h_hasattr(o, n):
    return hasattr(o, n if isinstance(n, str) else n.realize("hasattr"))


def h_getattr(o, n, *d):
    return getattr(o, n if isinstance(n, str) else n.realize("getattr"), *d)


def h_setattr(o, n, v):
    return setattr(o, n if isinstance(n, str) else n.realize("setattr"), v)


def h_range(*a):
    return range(*[x.__index__() if isinstance(x, Sym) else x for x in a])


def h_divmod(a, b):
    return (a // b, a % b)


def h_abs(x):
    return x.__abs__() if isinstance(x, Sym) else abs(x)


def h_format(v, spec=""):
    return fmt.format_value(v, spec)


def h_dict(*a, **k):
    if a and not hasattr(a[0], "keys") and not isinstance(a[0], dict):
        d = {}
        for kk, v in a[0]:
            d[key(d, kk)] = v
        d.update(k)
        return d
    return dict(*a, **k)


def h_set(*a):
    if a:
        items = list(a[0])
        if any(isinstance(x, Sym) for x in items):
            return set(dedupe(items))
        return set(items)
    return set()


def dedupe(items):
    out = []
    for x in items:
        if not any(contains_eq(x, y) for y in out):
            out.append(x)
    return out


def contains_eq(x, y):
    if x is y:
        return True
    r = x == y
    return bool(r)


def h_stringio(initial="", newline="\n"):
    return vfsmod.SymTextFile(initial or "", "rw+")


def h_isclose(a, b, rel_tol=1e-09, abs_tol=0.0):
    if not has_sym((a, b)):
        return math.isclose(a, b, rel_tol=rel_tol, abs_tol=abs_tol)
    d = h_abs(a - b)
    m = _minmax(True)(h_abs(a), h_abs(b))
    return d <= _minmax(True)(rel_tol * m, abs_tol)


def h_isnan(x):
    if isinstance(x, SymFloat):
        return x.is_nan()
    if isinstance(x, Sym):
        return False
    return math.isnan(x)


def h_isfinite(x):
    if isinstance(x, SymFloat):
        n = x.is_nan()
        return (not n) if isinstance(n, bool) else mkbool(z3.Not(n.e))
    if isinstance(x, Sym):
        return True
    return math.isfinite(x)


def h_isinf(x):
    if isinstance(x, Sym):
        return False
    return math.isinf(x)


def h_floor(x):
    return x.__floor__() if isinstance(x, SymFloat) else \
        (x if isinstance(x, SymInt) else math.floor(x))


def h_ceil(x):
    return x.__ceil__() if isinstance(x, SymFloat) else \
        (x if isinstance(x, SymInt) else math.ceil(x))


def h_trunc(x):
    return h_int(x) if isinstance(x, Sym) else math.trunc(x)


def h_reduce(f, seq, *init):
    it = iter(seq)
    if init:
        acc = init[0]
    else:
        try:
            acc = next(it)
        except StopIteration:
            raise TypeError("reduce() of empty iterable with no initial value")
    for x in it:
        acc = call(f, acc, x)
    return acc


def h_noop(*a, **k):
    return None


def h_any(it):
    for x in it:
        if x:
            return True
    return False


def h_all(it):
    for x in it:
        if not x:
            return False
    return True


def h_exit(*a):
    raise SystemExit(*a)


def h_input(*a):
    raise Unsupported("input()")


BUILTINS = {
    type: h_type, isinstance: h_isinstance, len: h_len, str: h_str,
    repr: h_repr, int: h_int, float: h_float, bool: h_bool, round: h_round,
    chr: h_chr, ord: h_ord, map: h_map, filter: h_filter, sorted: h_sorted,
    max: _minmax(True), min: _minmax(False), sum: h_sum, open: h_open,
    io.open: h_open, print: h_print, hasattr: h_hasattr, getattr: h_getattr,
    setattr: h_setattr, range: h_range, divmod: h_divmod, abs: h_abs,
    format: h_format, dict: h_dict, set: h_set, io.StringIO: h_stringio,
    math.isclose: h_isclose, math.isnan: h_isnan, math.isfinite: h_isfinite,
    math.isinf: h_isinf, math.floor: h_floor, math.ceil: h_ceil,
    math.trunc: h_trunc, functools.reduce: h_reduce, warnings.warn: h_noop,
    any: h_any, all: h_all, input: h_input,
    operator.mod: lambda a, b: mod(a, b),
    operator.contains: lambda a, b: contains(b, a),
    operator.eq: lambda a, b: a == b, operator.ne: lambda a, b: a != b,
    operator.add: lambda a, b: a + b, operator.mul: lambda a, b: a * b,
    operator.sub: lambda a, b: a - b, operator.getitem: lambda a, b: getitem(a, b),
    os.path.isfile: h_isfile, os.path.exists: h_isfile,
    os.remove: h_remove, os.unlink: h_remove, os.listdir: h_listdir,
    os.path.getsize: lambda p: h_len(VFS.text(p)),
    os.fspath: lambda p: p,
}
# functions that only make sense with all-native arguments but which are used
# on symbolic strings often enough to deserve an implementation


def h_basename(p):
    if isinstance(p, SymStr):
        i = p.rsplit("/", 1)
        return i[-1]
    return os.path.basename(p)


def h_dirname(p):
    if isinstance(p, SymStr):
        i = p.rsplit("/", 1)
        if len(i) == 1:
            return ""
        h = i[0]
        return h if (isinstance(h, SymStr) or h) else "/"
    return os.path.dirname(p)


def h_splitext(p):
    if not isinstance(p, SymStr):
        return os.path.splitext(p)
    # os.path.splitext: last dot after last slash, not leading dots
    cells = p.cells
    n = len(cells)
    DOT, SL = core.mask_of("."), core.mask_of("/")
    dot = -1
    slash = -1
    for i in range(n - 1, -1, -1):
        if symstr.cell_in(cells[i], SL):
            slash = i
            break
        if dot < 0 and symstr.cell_in(cells[i], DOT):
            dot = i
    if dot > slash:
        j = slash + 1
        while j < dot:
            if not symstr.cell_in(cells[j], DOT):
                return (mk(cells[:dot]), mk(cells[dot:]))
            j += 1
    return (p, "")


def h_joinpath(a, *ps):
    if not has_sym((a,) + ps):
        return os.path.join(a, *ps)
    r = a
    for p in ps:
        if p.startswith("/"):
            r = p
        elif not r or r.endswith("/"):
            r = r + p
        else:
            r = r + "/" + p
    return r


def h_split_path(p):
    if isinstance(p, SymStr):
        return (h_dirname(p), h_basename(p))
    return os.path.split(p)


BUILTINS[os.path.basename] = h_basename
BUILTINS[os.path.dirname] = h_dirname
BUILTINS[os.path.splitext] = h_splitext
BUILTINS[os.path.join] = h_joinpath
BUILTINS[os.path.split] = h_split_path

RE_FUNCS = {re.match: "match", re.fullmatch: "fullmatch", re.search: "search",
            re.split: "split", re.sub: "sub", re.findall: "findall",
            re.finditer: "finditer", re.subn: "subn"}

STR_METHODS = set(dir(str))
_METHOD_DESCR = (type(str.join), type(str.__add__))
_BUILTIN_M = type("".join)
_C_METHOD = type(re.compile("a").match)
_MW = type("".__add__)


def all_args_sym(args, kwargs):
    return has_sym(args) or (kwargs and has_sym(kwargs))


def call(f, *args, **kwargs):
    try:
        h = BUILTINS.get(f)
    except TypeError:
        h = None
    if h is None and EXTRA:
        try:
            h = EXTRA.get(f)
        except TypeError:
            h = None
    if h is not None:
        return h(*args, **kwargs)
    tf = type(f)
    if tf is _BUILTIN_M or tf is _C_METHOD:
        s = f.__self__
        ts = type(s)
        if ts is str:
            if has_sym(args, 4) or f.__name__ in ("join", "format", "format_map"):
                return str_method(s, f.__name__, args, kwargs)
            return f(*args, **kwargs)
        if ts is dict or isinstance(s, dict):
            if dict_sym(s, args):
                return dict_method(s, f, args, kwargs)
            return f(*args, **kwargs)
        if ts is list:
            if f.__name__ == "sort":
                k = kwargs.get("key")
                if k is not None:
                    kwargs["key"] = wrapf(k)
            return f(*args, **kwargs)
        if ts is set or ts is frozenset:
            if f.__name__ == "add" and has_sym(args):
                for y in s:
                    if contains_eq(args[0], y):
                        return None
            return f(*args, **kwargs)
        if ts is re.Pattern:
            if has_sym(args) or has_sym(kwargs):
                return rx.call(f.__name__, s, args, kwargs)
            return f(*args, **kwargs)
        return native(f, args, kwargs)
    if tf in _METHOD_DESCR:
        if args and f.__objclass__ is str and has_sym(args, 4):
            a0 = args[0]
            if isstr(a0):
                return str_method(a0, f.__name__, args[1:], kwargs)
        if args and f.__objclass__ is dict:
            return call(getattr(args[0], f.__name__), *args[1:], **kwargs)
        return native(f, args, kwargs)
    if f in RE_FUNCS if callable(f) and hasattr(f, "__hash__") and f.__hash__ else False:
        if has_sym(args) or has_sym(kwargs):
            pat = args[0]
            name = RE_FUNCS[f]
            kw = dict(kwargs)
            fl = kw.pop("flags", 0)
            rest = args[1:]
            if isinstance(pat, SymStr):
                pat = pat.realize("regex pattern")
            if isinstance(pat, str):
                pat = re.compile(pat, fl)
            return rx.call(name, pat, rest, kw)
        return f(*args, **kwargs)
    if tf is functools.partial:
        return call(f.func, *f.args, *args, **{**f.keywords, **kwargs})
    return native(f, args, kwargs)


C_TYPES = (_C_METHOD, type(len), type(str.join), type(str.__add__), type("".__add__))


def native(f, args, kwargs):
    if not (type(f) in C_TYPES):
        return f(*args, **kwargs)
    try:
        return f(*args, **kwargs)
    except TypeError:
        if not all_args_sym(args, kwargs):
            raise
        return f(*[realize(a) for a in args],
                 **{k: realize(v) for k, v in kwargs.items()})


def realize(x, why="call of an uninstrumented C function"):
    if isinstance(x, SymStr):
        return x.realize(why)
    if isinstance(x, SymInt):
        return int(core.CTX.pin(x.e, why))
    if isinstance(x, SymFloat):
        return float(x)
    if isinstance(x, SymBool):
        return bool(x)
    if isinstance(x, list):
        return [realize(i) for i in x]
    if isinstance(x, tuple) and type(x) is tuple:
        return tuple(realize(i) for i in x)
    if type(x) is dict:
        return {realize(k): realize(v) for k, v in x.items()}
    return x


def str_method(s, name, args, kwargs):
    if name == "join":
        items = list(args[0])
        if not has_sym(items, 1):
            if isinstance(s, str):
                return s.join(items)
        return symstr.str_join(s, items)
    if name == "format":
        if not has_sym(args, 4) and not has_sym(kwargs, 4) and isinstance(s, str):
            return s.format(*args, **kwargs)
        if isinstance(s, SymStr):
            s = s.realize("format string")
        return fmt.str_format(s, args, kwargs)
    if name == "format_map":
        return fmt.str_format(s, (), args[0])
    if name == "__mod__":
        return mod(s, args[0])
    if isinstance(s, str):
        if name in ("ljust", "rjust", "center", "zfill", "expandtabs"):
            return getattr(s, name)(*[a.__index__() if isinstance(a, SymInt)
                                      else a for a in args])
        s = SymStr(tuple(s))
    return getattr(s, name)(*args, **kwargs)


# -- dict / containers ----------------------------------------------------------
def dict_sym(d, args):
    if args and isinstance(args[0], Sym):
        return True
    for k in d:
        if isinstance(k, Sym):
            return True
    return False


def key(d, k):
    """The key object of mapping d equal to k, or k itself."""
    if type(d) is list or type(d) is str or type(d) is tuple:
        return k
    if not isinstance(d, dict) and (type(k) is tuple or type(k).__name__ == "ndarray"):
        return mask(k)
    if isinstance(d, dict):
        if isinstance(k, Sym):
            for kk in list(d):
                if kk is k:
                    return kk
            for kk in list(d):
                if type(kk) in (str, int, float) or isinstance(kk, Sym):
                    if contains_eq(k, kk):
                        return kk
            return k
        for kk in d:
            if isinstance(kk, Sym):
                break
        else:
            return k
        try:
            if type(k) is str:
                for kk in list(d):
                    if type(kk) is str and kk == k:
                        return kk
                for kk in list(d):
                    if isinstance(kk, Sym) and contains_eq(kk, k):
                        return kk
        except TypeError:
            pass
        return k
    if isinstance(k, SymInt):
        return k.__index__()
    return k


def dict_method(d, f, args, kwargs):
    n = f.__name__
    if n in ("get", "pop", "setdefault", "__getitem__", "__contains__",
             "__setitem__", "__delitem__", "has_key"):
        return f(key(d, args[0]), *args[1:], **kwargs)
    if n == "update":
        for a in args:
            items = a.items() if hasattr(a, "items") else a
            for k, v in items:
                d[key(d, k)] = v
        for k, v in kwargs.items():
            d[key(d, k)] = v
        return None
    return f(*args, **kwargs)


def mask(k):
    """An index: arrays of symbolic truth values are decided."""
    if type(k) is tuple:
        return tuple(mask(x) for x in k)
    if type(k).__name__ == "ndarray" and k.dtype == object and k.size and \
            all(isinstance(x, (bool, SymBool)) or type(x).__name__ == "bool" for x in k.flat):
        import numpy
        return numpy.array([bool(x) for x in k.flat], dtype=bool).reshape(k.shape)
    return k


def getitem(o, k):
    if isinstance(o, dict):
        return o[key(o, k)]
    if type(k) is tuple or type(k).__name__ == "ndarray":
        return o[mask(k)]
    if isinstance(k, SymInt) and not isinstance(o, SymStr):
        return o[k.__index__()]
    return o[k]


CMP = {"Eq": operator.eq, "NotEq": operator.ne, "Lt": operator.lt, "LtE": operator.le,
       "Gt": operator.gt, "GtE": operator.ge}
ARRAY_CMP = [None]


def cmp(op, a, b):
    """comparison; elementwise (without forking) on arrays of proxies"""
    f = CMP[op]
    if ARRAY_CMP[0] is not None:
        r = ARRAY_CMP[0](f, a, b)
        if r is not None:
            return r
    return f(a, b)


def mod(a, b):
    if isinstance(a, SymStr) or (isinstance(a, str) and has_sym(b, 4)):
        return fmt.mod(a, b)
    if isinstance(a, str) and type(b) is tuple:
        # objects with symbolic string conversions
        if any(hasattr(type(x), "__sx_str__") for x in b):
            return fmt.mod(a, b)
    elif isinstance(a, str) and hasattr(type(b), "__sx_str__"):
        return fmt.mod(a, b)
    return a % b


def fstr(*parts):
    """parts: literal str, or (value, conversion, spec)"""
    out = []
    for p in parts:
        if type(p) is str:
            out.extend(p)
            continue
        v, conv, spec = p
        if conv == 114 or conv == 97:
            v = fmt.to_repr(v)
        elif conv == 115:
            v = fmt.to_str(v)
        out.extend(cells_of(fmt.format_value(v, spec)))
    return mk(out)


def contains(x, c):
    """x in c"""
    if isinstance(c, SymStr):
        return c.find(x) != -1 if isstr(x) else (x in c)
    if isinstance(c, str):
        if isinstance(x, SymStr):
            return SymStr(tuple(c)).find(x) != -1 if c else not x
        return x in c
    if isinstance(c, dict):
        if isinstance(x, Sym) or dict_sym(c, ()):
            k = key(c, x)
            return any(k is kk for kk in c) or (not isinstance(x, Sym) and k in c)
        return x in c
    if isinstance(c, (set, frozenset)):
        if isinstance(x, Sym) or any(isinstance(y, Sym) for y in c):
            return any(contains_eq(x, y) for y in c
                       if isinstance(y, Sym) or isinstance(x, Sym) or type(x) is type(y))
        return x in c
    return x in c


def notcontains(x, c):
    return not contains(x, c)


def is_(a, b):
    if isinstance(a, SymBool):
        return isinstance(b, (bool, SymBool)) and bool(a) == bool(b)
    if isinstance(b, SymBool):
        return isinstance(a, bool) and bool(b) == a
    return a is b


def isnot(a, b):
    return not is_(a, b)


def tick():
    if core.CTX is not None:
        core.CTX.tick()


def enter(name):
    if core.CTX is not None:
        core.CTX.stats.functions.add(name)
