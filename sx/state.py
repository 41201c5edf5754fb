"""Snapshot / restore of the code under test's module-level state, so that
every path starts from the state right after import."""
import copy
import importlib
import sys
import types

MODULES = ["nappy", "nappy.na_file.na_core", "nappy.na_file.na_file",
           "nappy.na_file.na_file_1001", "nappy.na_file.na_file_1010",
           "nappy.na_file.na_file_1020", "nappy.na_file.na_file_2010",
           "nappy.na_file.na_file_2110", "nappy.na_file.na_file_2160",
           "nappy.na_file.na_file_2310", "nappy.na_file.na_file_3010",
           "nappy.na_file.na_file_4010", "nappy.nappy_api",
           "nappy.utils", "nappy.utils.common_utils", "nappy.utils.text_parser",
           "nappy.utils.list_manipulator", "nappy.utils.right_strip",
           "nappy.utils.parse_config", "nappy.utils.compare_na",
           "nappy.utils.compare"]

_snap = []
_objs = []
_caches = []
_cells = []


def snapshot(extra=None):
    for m in MODULES + list(extra or []):
        try:
            importlib.import_module(m)
        except ImportError:
            pass
    seen = set()

    def rec(o):
        if id(o) in seen:
            return
        seen.add(id(o))
        if isinstance(o, (list, dict, set)):
            try:
                _objs.append((o, copy.copy(o)))
            except Exception:
                return
            for v in (o.values() if isinstance(o, dict) else list(o)):
                rec(v)
        elif isinstance(o, tuple):
            for v in o:
                rec(v)
        elif isinstance(o, types.FunctionType):
            for d in (o.__defaults__ or ()):
                rec(d)
            for d in (o.__kwdefaults__ or {}).values():
                rec(d)
            rec(o.__dict__)
            for c in (o.__closure__ or ()):
                try:
                    v = c.cell_contents
                except ValueError:
                    continue
                _cells.append((c, v))
                rec(v)
        elif hasattr(o, "cache_clear") and hasattr(o, "__wrapped__"):
            _caches.append(o)
            rec(o.__wrapped__)
        elif isinstance(o, (staticmethod, classmethod)):
            rec(o.__func__)
        elif isinstance(o, property):
            for f in (o.fget, o.fset, o.fdel):
                rec(f)
        elif not isinstance(o, type) and str(getattr(type(o), "__module__", "")).split(".")[0] == "nappy" \
                and hasattr(o, "__dict__"):
            rec(o.__dict__)

    for name in sorted(sys.modules):
        if not (name == "nappy" or name.startswith("nappy.")):
            continue
        mod = sys.modules[name]
        g = mod.__dict__
        _snap.append((g, {k: v for k, v in g.items()}))
        for k, v in list(g.items()):
            if k.startswith("__"):
                continue
            if not isinstance(v, type):
                rec(v)
            elif v.__module__ == name:
                cd = {}
                for ak, av in list(vars(v).items()):
                    if not ak.startswith("__") or isinstance(av, types.FunctionType):
                        rec(av)
                    if not ak.startswith("__"):
                        cd[ak] = av
                _snap.append((v, cd))


def restore():
    for f in _caches:
        f.cache_clear()
    for c, v in _cells:
        if c.cell_contents is not v:
            c.cell_contents = v
    for o, c in _objs:
        if isinstance(o, list):
            if len(o) != len(c) or any(x is not y for x, y in zip(o, c)):
                o[:] = c
        elif isinstance(o, dict):
            if len(o) != len(c) or any(o.get(k, _objs) is not v for k, v in c.items()):
                o.clear()
                o.update(c)
        else:
            if o != c:
                o.clear()
                o.update(c)
    for g, c in _snap:
        if isinstance(g, dict):
            for k in list(g):
                if k not in c:
                    del g[k]
            for k, v in c.items():
                if g.get(k, _snap) is not v:
                    g[k] = v
        else:
            cur = vars(g)
            for k in list(cur):
                if not k.startswith("__") and k not in c:
                    delattr(g, k)
            for k, v in c.items():
                if cur.get(k, _snap) is not v:
                    setattr(g, k, v)
