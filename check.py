#!/opt/venv/bin/python
"""check.py C01 [--tier quick|thorough] [--case NAME] [-v]

Decides one property: runs every harness case of props/<id>.py symbolically on
the instrumented source of /repo, replays counterexamples on the real code, and
writes evidence/<id>.json.

exit 0  the property held on everything explored (all paths, solver verdicts)
exit 1  a counterexample was found and reproduced on the real code
exit 2  inconclusive / error of the check
"""
import argparse
import fnmatch
import importlib
import json
import logging
import multiprocessing as mp
import os
import random
import resource
import subprocess
import sys
import tempfile
import time
import traceback
import warnings

sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")
sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
REPO = os.environ.get("VERIF_REPO", "/repo")
PY = sys.executable

from sx import core, cex, driver, hooks, loader, state  # noqa: E402


def nmods():
    return [m for m in sys.modules if m == "nappy" or m.startswith("nappy.")]


def replay_batch(entries, timeout):
    fi = tempfile.NamedTemporaryFile("w", suffix=".json", delete=False)
    json.dump(entries, fi)
    fi.close()
    fo = fi.name + ".out"
    try:
        subprocess.run([PY, os.path.join(HERE, "replay.py"), "--batch", fi.name, fo],
                       timeout=timeout, stdout=subprocess.DEVNULL,
                       stderr=subprocess.DEVNULL,
                       env=dict(os.environ, VERIF_REPO=REPO))
        return json.load(open(fo))
    except (subprocess.TimeoutExpired, OSError, ValueError) as e:
        return [{"status": "error", "message": repr(e)} for _ in entries]
    finally:
        for f in (fi.name, fo):
            if os.path.exists(f):
                os.unlink(f)


def limit_memory():
    """a case which needs more is undecided (and must not take the others down)"""
    resource.setrlimit(resource.RLIMIT_AS, (8 << 30, 8 << 30))


def run_case(job):
    """Explore one case; executed in a worker process."""
    prop, case, opts = job
    t0 = time.monotonic()
    res = {"case": case["name"], "status": "ok", "violations": [], "unreproduced": [],
           "witness": False, "sample": None, "error": None}
    sys.unraisablehook = lambda *a: None
    mod = importlib.import_module("props." + case["module"])
    fn = getattr(mod, case["fn"])
    c = core.Context(max_paths=case.get("max_paths", 40000),
                     max_s=case.get("max_s", opts["max_s"]),
                     tick_limit=case.get("ticks", 250000))
    sample = {}

    def entry(values):
        return {"property": prop, "case": case["name"], "module": case["module"],
                "fn": case["fn"], "params": case["params"], "values": values,
                "timeout": case.get("timeout", 20)}

    def on_violation(ctx, conds):
        tried = []
        ents = []
        for m in cex.candidate_models(ctx):
            v = cex.values_of(ctx, m)
            if v in tried:
                continue
            tried.append(v)
            ents.append(entry(v))
        if not ents:
            if ctx.refuted:
                # unsatisfiable with true formatting facts: not a real path
                return True
            # only spurious models (formatting facts refute them)
            res["unreproduced"].append({"values": None, "message": "no model consistent with formatting facts: " + "; ".join(ck.msg for ck in ctx.checks[-3:])})
            return len(res["unreproduced"]) < 4
        out = replay_batch(ents, 120)
        for e, r in zip(ents, out):
            if r["status"] == "violated":
                e["message"] = r["message"]
                res["violations"].append(e)
                return False
        res["unreproduced"].append({"values": ents[0]["values"],
                                    "message": "; ".join(k.msg for k in ctx.checks if k.cond is False)[:2000],
                                    "replays": [(r["status"], r.get("message")) for r in out]})
        return len(res["unreproduced"]) < 4

    c.on_violation = on_violation

    def body():
        state.restore()
        hooks.PRINTED.clear()
        sx = driver.SymDriver(c, case["params"])
        try:
            fn(sx, **case["params"])
        except core.NonTermination:
            c.checks.append(core.Check(False, "does not terminate (loop bound exceeded)"))
        except (Exception, SystemExit) as e:
            tb = traceback.extract_tb(e.__traceback__)
            where = "; ".join("%s:%s" % (os.path.basename(f.filename), f.lineno) for f in tb[-6:])
            try:
                msg = "unexpected %s: %s [%s]" % (type(e).__name__, e.args[:2], where)
            except Exception:
                msg = "unexpected %s [%s]" % (type(e).__name__, where)
            c.checks.append(core.Check(False, msg))
        if not res["witness"] or (not sample and sx.observed):
            # reachability twin: assert(false) at the end must be violated
            r = c._check()
            if str(r) == "sat":
                res["witness"] = bool(c.checks)
                if not sample and c.inputs and not any(k.cond is False for k in c.checks):
                    for m in cex.candidate_models(c, 1):
                        o = cex.render(c, m, sx.observed)
                        sample.update(values=cex.values_of(c, m), observed=o)
                        break
    try:
        c.explore(body)
    except core.Budget as e:
        res["status"] = "incomplete"
        res["error"] = "budget exhausted (%s)" % e
    except core.Unsupported as e:
        res["status"] = "incomplete"
        res["error"] = "unsupported: %s" % e
    except BaseException as e:
        res["status"] = "error"
        res["error"] = "%r\n%s" % (e, traceback.format_exc())
    if sample:
        res["sample"] = dict(entry(sample["values"]), observed=sample["observed"])
    s = c.stats
    res.update(paths=s.paths, decisions=s.decisions, queries=s.queries,
               solver_s=round(s.solver_s, 3), obligations=s.obligations,
               final_queries=s.final_queries, unknown=s.unknown,
               infeasible=s.infeasible, pins=s.pins,
               functions=sorted(s.functions), wall_s=round(time.monotonic() - t0, 3))
    return res


def num_close(a, b):
    try:
        fa, fb = float(a), float(b)
    except (TypeError, ValueError):
        return False
    if fa != fa or fb != fb:
        return fa != fa and fb != fb
    return abs(fa - fb) <= 1e-9 * max(1.0, abs(fa), abs(fb))


def obs_equal(a, b):
    if isinstance(a, list) and isinstance(b, list):
        return len(a) == len(b) and all(obs_equal(x, y) for x, y in zip(a, b))
    if isinstance(a, dict) and isinstance(b, dict):
        return set(a) == set(b) and all(obs_equal(a[k], b[k]) for k in a)
    if isinstance(a, str) and isinstance(b, str):
        if a == b:
            return True
        import re
        a = re.sub(r"\0PAD", " ", a)
        pa = re.split(r"([\s,]+)", a)
        pb = re.split(r"([\s,]+)", b)
        pa = [x.strip(" ") for x in pa if x.strip(" ")]
        pb = [x.strip(" ") for x in pb if x.strip(" ")]
        return len(pa) == len(pb) and all(x == y or num_close(x, y) for x, y in zip(pa, pb))
    if a == b:
        return True
    return num_close(a, b)


def first_diff(a, b):
    if isinstance(a, list) and isinstance(b, list) and len(a) == len(b):
        for x, y in zip(a, b):
            if not obs_equal(x, y):
                return first_diff(x, y)
    if isinstance(a, str) and isinstance(b, str):
        for x, y in zip(a.split("\n"), b.split("\n")):
            if not obs_equal(x, y):
                return "%r vs %r" % (x, y)
    return "%r vs %r" % (str(a)[:300], str(b)[:300])


def known_findings(prop):
    out = {}
    p = os.path.join(HERE, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line.startswith("finding:") and "property=%s " % prop in line:
                f = dict(x.split("=", 1) for x in line.split()[1:3])
                out[f["case"]] = line.split(None, 3)[3]
    return out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--case")
    ap.add_argument("--jobs", type=int, default=min(8, os.cpu_count() or 1))
    ap.add_argument("-v", action="store_true")
    ap.add_argument("--all", action="store_true", help="do not stop at the first violation")
    ap.add_argument("--strict", action="store_true", help="exit 2 if any case stays undecided")
    a = ap.parse_args()
    t0 = time.monotonic()
    seed = int(os.environ.get("VERIF_SEED", "1"))
    warnings.simplefilter("ignore")
    logging.disable(logging.CRITICAL)
    loader.install(HERE)
    try:
        mod = importlib.import_module("props." + a.prop)
        if getattr(mod, "NUMERIC", False):
            from sx import nphooks
            nphooks.install()
        state.snapshot(getattr(mod, "NAPPY_MODULES", None))
    except Exception:
        # the code under test cannot even be loaded
        print("ERROR loading %s" % a.prop)
        traceback.print_exc()
        return 2
    cases = mod.cases(a.tier)
    for i, c in enumerate(cases):
        c.setdefault("module", a.prop)
        c.setdefault("params", {})
        c.setdefault("name", "%s#%d" % (c["fn"], i))
    names = [c["name"] for c in cases]
    assert len(set(names)) == len(names), "duplicate case names"
    if a.case:
        cases = [c for c in cases if fnmatch.fnmatchcase(c["name"], a.case)]
    known = known_findings(a.prop)
    cap = 780 if a.tier == "quick" else 6 * 3600
    opts = {"max_s": 600 if a.tier == "quick" else 3600}
    jobs = [(a.prop, c, opts) for c in cases]
    # long cases first
    jobs.sort(key=lambda j: -j[1].get("weight", 1))
    if os.environ.get("VERIF_SHUFFLE"):         # developer option, see tools/mutate.py
        random.Random(7).shuffle(jobs)
    results = []
    timed_out = False
    stop_early = False
    if a.jobs <= 1 or len(jobs) == 1:
        for j in jobs:
            results.append(run_case(j))
            if results[-1]["violations"] and results[-1]["case"] not in known and not a.all:
                stop_early = True
                break
    else:
        with mp.get_context("fork").Pool(min(a.jobs, len(jobs)), limit_memory) as pool:
            it = pool.imap_unordered(run_case, jobs)
            for _ in jobs:
                left = cap - (time.monotonic() - t0)
                try:
                    r = it.next(timeout=max(1, left))
                except mp.TimeoutError:
                    timed_out = True
                    pool.terminate()
                    break
                results.append(r)
                if a.v:
                    print("  %-40s %-10s paths=%d dec=%d q=%d oblig=%d %.1fs pins=%s %s" % (
                        r["case"], r["status"], r["paths"], r["decisions"], r["queries"],
                        r["obligations"], r["wall_s"], r["pins"] or "", r["error"] or ""))
                if r["violations"] and r["case"] not in known and not a.all:
                    stop_early = True
                    pool.terminate()
                    break
    results.sort(key=lambda r: r["case"])
    undecided = {}
    violations = []
    for r in results:
        if r["violations"]:
            if r["case"] in known:
                print("KNOWN-FINDING: property=%s %s" % (a.prop, known[r["case"]]))
            else:
                violations.extend(r["violations"])
        elif r["unreproduced"]:
            undecided[r["case"]] = "counterexample of the encoding not reproduced on the real code: %s" % (
                json.dumps(r["unreproduced"][0])[:3000])
        elif r["status"] != "ok":
            undecided[r["case"]] = "%s: %s" % (r["status"], r["error"])
        elif not r["witness"]:
            undecided[r["case"]] = "vacuous (no reachable assertion)"
        elif r["unknown"]:
            undecided[r["case"]] = "%d unknown solver answers" % r["unknown"]
    if not stop_early:
        for j in jobs:
            if j[1]["name"] not in [r["case"] for r in results]:
                undecided[j[1]["name"]] = "not reached within the time limit of the check"
    # validate the encoding: replay one sampled path per case on the real code
    samples = [r["sample"] for r in results if r["sample"]]
    validated = 0
    if samples and not violations:
        step = max(1, len(samples) // (24 if a.tier == "quick" else 200))
        pick = samples[seed % step::step]
        outs = replay_batch([{k: v for k, v in s.items() if k != "observed"} for s in pick], 300)
        for s, o in zip(pick, outs):
            if o["status"] == "held" and obs_equal(s["observed"], o["observed"]):
                validated += 1
            elif o["status"] == "violated":
                # the real code breaks the property on an input for which the
                # encoding says it holds (e.g. floating point): still real
                if s["case"] not in known:
                    violations.append(dict({k: v for k, v in s.items() if k != "observed"},
                                           message=o["message"]))
            elif o["status"] == "skip":
                pass
            else:
                undecided[s["case"]] = "encoding disagrees with the real code: %s %s" % (
                    o.get("message", ""), first_diff(s["observed"], o.get("observed")))
    for r in results:
        if r["case"] in known and not r["violations"] and a.v:
            print("note: listed finding of case %s no longer fails" % r["case"])
    tot = lambda k: sum(r[k] for r in results)
    pins = {}
    funcs = set()
    for r in results:
        for k, v in r["pins"].items():
            pins[k] = pins.get(k, 0) + v
        funcs.update(f for f in r["functions"] if f.startswith("nappy"))
    bounds = getattr(mod, "BOUNDS", "")
    ev = {
        "property": a.prop, "tier": a.tier, "seed": seed, "level": "model_checking",
        "coverage": {
            "states": tot("paths"), "transitions": tot("decisions"),
            "traces_validated_against_impl": validated,
            "samples": [{"case": x["case"], "values": x["values"],
                         "observed": str(x["observed"])[:400]} for x in samples[:3]],
            "sampled_paths": len(samples),
            "functions_encoded": sorted(funcs),
            "bounds": bounds,
            "cases": len(results), "cases_planned": len(jobs),
            "cases_decided": len(jobs) - len(undecided), "undecided": undecided,
            "obligations": tot("obligations"),
            "queries_discharged": tot("queries"),
            "final_queries": tot("final_queries"),
            "solver_s": round(tot("solver_s"), 2),
            "unknown": tot("unknown"),
            "infeasible_paths": tot("infeasible"),
            "concretised": pins,
            "reachability_witnesses": sum(1 for r in results if r["witness"]),
            "explanation": "states = feasible symbolic paths of the real (instrumented) source, "
                           "transitions = branch decisions; each path's assertions are discharged by z3 "
                           "for all values satisfying the path condition",
        },
        "assumptions": getattr(mod, "ASSUMPTIONS", []),
        "wall_s": round(time.monotonic() - t0, 2),
        "violations": [{"case": v["case"], "message": v["message"], "values": v["values"]}
                       for v in violations],
    }
    if stop_early:
        ev["coverage"]["note"] = "stopped at the first reproduced violation"
    if not a.case:
        os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
        with open(os.path.join(HERE, "evidence", a.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
    print("%s tier=%s cases=%d paths=%d decisions=%d obligations=%d queries=%d solver=%.1fs validated=%d pins=%d wall=%.1fs" % (
        a.prop, a.tier, len(results), tot("paths"), tot("decisions"), tot("obligations"),
        tot("queries"), tot("solver_s"), validated, sum(pins.values()), time.monotonic() - t0))
    if pins:
        print("  concretised: %s" % pins)
    if violations:
        os.makedirs(os.path.join(HERE, "replays"), exist_ok=True)
        for i, v in enumerate(violations if a.all else violations[:5]):
            p = os.path.join(HERE, "replays", "%s_%d.json" % (a.prop, i))
            with open(p, "w") as f:
                json.dump(v, f, indent=1)
            print("  case %s: %s" % (v["case"], v["message"]))
            print("VIOLATION property=%s replay=%s" % (a.prop, p))
        return 1
    # Cases without a verdict are reported and recorded, not counted as held.
    for name, e in sorted(undecided.items())[:10]:
        print("UNDECIDED case %s: %s" % (name, e))
    if undecided and (a.strict or 2 * len(undecided) > len(jobs)):
        print("INCONCLUSIVE %d of %d cases undecided" % (len(undecided), len(jobs)))
        return 2
    return 0


if __name__ == "__main__":
    sys.exit(main())
