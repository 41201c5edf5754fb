#!/opt/venv/bin/python
"""Replay concrete inputs against the real, uninstrumented nappy in /repo.

  replay.py FILE.json            replay one recorded violation: exit 1 if it
                                 reproduces, 0 if the property held, 3 if the
                                 input left the assumed region
  replay.py --batch IN OUT       replay a list of inputs (used by check.py)
"""
import importlib
import json
import logging
import os
import shutil
import signal
import sys
import tempfile
import traceback
import warnings

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.path.insert(0, os.environ.get("VERIF_REPO", "/repo"))
sys.dont_write_bytecode = True
sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")


class Hang(BaseException):
    pass


def clean(v):
    if isinstance(v, (list, tuple)):
        return [clean(x) for x in v]
    if isinstance(v, dict):
        return {str(k): clean(x) for k, x in v.items()}
    if isinstance(v, float) and v != v:
        return "nan"
    if v is None or isinstance(v, (str, int, float, bool)):
        return v
    if hasattr(v, "tolist") or hasattr(v, "values"):
        return clean((v if hasattr(v, "tolist") and not hasattr(v, "dims") else v.values).tolist())
    return str(v)


def run_one(ent):
    from sx import driver
    warnings.simplefilter("ignore")
    logging.disable(logging.CRITICAL)
    mod = importlib.import_module("props." + ent["module"])
    fn = getattr(mod, ent["fn"])
    scratch = tempfile.mkdtemp(prefix="vp_replay_")
    cwd = os.getcwd()
    out = {}
    d = driver.RealDriver(ent["params"], ent["values"], scratch)

    def onalarm(*a):
        raise Hang()
    signal.signal(signal.SIGALRM, onalarm)
    signal.alarm(int(ent.get("timeout", 20)))
    so = sys.stdout
    try:
        os.chdir(scratch)
        sys.stdout = open(os.devnull, "w")
        try:
            fn(d, **ent["params"])
            out = {"status": "held"}
        except driver.Skip as e:
            out = {"status": "skip", "message": str(e)}
        except driver.Violation as e:
            out = {"status": "violated", "message": str(e)}
        except Hang:
            out = {"status": "violated", "message": "did not terminate within the replay time limit"}
        except (Exception, SystemExit) as e:
            out = {"status": "violated", "message": "unexpected %s: %s" % (type(e).__name__, e),
                   "traceback": traceback.format_exc()}
        signal.alarm(0)
    finally:
        sys.stdout = so
        os.chdir(cwd)
        shutil.rmtree(scratch, ignore_errors=True)
    out["observed"] = clean(d.observed)
    return out


def isolated(ent):
    """run_one in a forked child (module state, hangs and crashes contained)."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        os.close(r)
        try:
            res = run_one(ent)
        except BaseException as e:
            res = {"status": "error", "message": "%r" % e, "traceback": traceback.format_exc()}
        with os.fdopen(w, "w") as f:
            json.dump(res, f)
        os._exit(0)
    os.close(w)
    with os.fdopen(r) as f:
        t = f.read()
    os.waitpid(pid, 0)
    return json.loads(t) if t else {"status": "error", "message": "replay child died"}


def main():
    if sys.argv[1] == "--batch":
        ents = json.load(open(sys.argv[2]))
        if any(e.get("heavy", True) for e in ents):
            try:
                import numpy, xarray, cftime            # noqa: F401
            except ImportError:
                pass
        res = [isolated(e) for e in ents]
        json.dump(res, open(sys.argv[3], "w"))
        return 0
    ent = json.load(open(sys.argv[1]))
    r = isolated(ent)
    print(json.dumps({k: v for k, v in r.items() if k != "observed"}, indent=1))
    return {"violated": 1, "held": 0}.get(r["status"], 3)


if __name__ == "__main__":
    sys.exit(main())
