"""Developer tool: make a planted bug from a spec and confirm it.

plant.py SPEC.py [--check]   SPEC defines ID, PROP, NEEDS, BREAKS, EDITS [(path, old, new)], DEMO (python text)
The bug is made in a scratch copy of /repo; the demonstration must pass on /repo
and fail on the copy, and the stable tests must pass on the copy.
"""
import json
import os
import runpy
import shutil
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, capture_output=True, text=True, **kw)


def main():
    spec = runpy.run_path(sys.argv[1])
    sid = spec["ID"]
    work = tempfile.mkdtemp(prefix="plant.", dir="/tmp")
    try:
        r = os.path.join(work, "repo")
        subprocess.check_call(["cp", "-a", "/repo", r])
        sh("git checkout -q -- .", cwd=r)
        for path, old, new in spec["EDITS"]:
            p = os.path.join(r, path)
            b = open(p, newline="").read()
            if "\r\n" in b:
                old, new = old.replace("\n", "\r\n"), new.replace("\n", "\r\n")
            if b.count(old) != 1:
                print(sid, "EDIT matches", b.count(old), "times:", path, old[:60])
                return 1
            open(p, "w", newline="").write(b.replace(old, new))
        diff = subprocess.run(["git", "diff", "--binary"], cwd=r, capture_output=True).stdout
        out = os.path.join(HERE, "seeded", sid)
        os.makedirs(out, exist_ok=True)
        open(os.path.join(out, "patch.diff"), "wb").write(diff)
        open(os.path.join(out, "demo.py"), "w").write(spec["DEMO"].strip("\n") + "\n")
        open(os.path.join(out, "demo.sh"), "w").write(
            '#!/bin/bash\n# run with cwd /repo\nhere=$(cd "$(dirname "$0")" && pwd)\n'
            'export PYTHONPATH=$PWD PYTHONDONTWRITEBYTECODE=1\n'
            'work=$(mktemp -d) || exit 1\ntrap \'rm -rf "$work"\' EXIT\ncd "$work" || exit 1\n'
            'timeout 200 /opt/venv/bin/python "$here/demo.py"\n')
        os.chmod(os.path.join(out, "demo.sh"), 0o755)
        json.dump({"property": spec["PROP"], "needs": spec["NEEDS"], "what_it_breaks": spec["BREAKS"]},
                  open(os.path.join(out, "meta.json"), "w"), indent=1)
        # original lines only?
        base = sh("git rev-list --max-parents=0 HEAD", cwd=r).stdout.split()[0]
        removed = [l[1:].strip() for l in diff.decode(errors="replace").splitlines()
                   if l.startswith("-") and not l.startswith("---") and l[1:].strip()]
        for path in sorted(set(e[0] for e in spec["EDITS"])):
            first = sh("git log --format=%%H --reverse -- %s" % path, cwd=r).stdout.split()
        orig = ""
        for path in sorted(set(e[0] for e in spec["EDITS"])):
            orig += sh("git show %s:%s" % (ORIG(r), path), cwd=r).stdout
        have = set(l.strip() for l in orig.splitlines())
        if not any(l in have for l in removed) and removed:
            print(sid, "WARNING: no removed line is original")
        a = sh("bash %s/demo.sh" % out, cwd="/repo")
        b = sh("bash %s/demo.sh" % out, cwd=r)
        ok = a.returncode == 0 and b.returncode != 0
        if not ok:
            print(sid, "DEMO clean rc", a.returncode, a.stderr[-300:], "patched rc", b.returncode, b.stdout[-200:])
        t = open("/opt/vp/test.sh").read().replace("/repo", r).replace("/opt/vp/work.", work + "/w.")
        open(os.path.join(work, "test.sh"), "w").write(t)
        sh("bash %s/test.sh %s/o.json" % (work, work))
        o = json.load(open(work + "/o.json"))
        bad = [x for x in json.load(open("/opt/vp/BASELINE.json"))["stable"] if x not in o["passed"]]
        print(sid, "demo", "ok" if ok else "BAD", "tests", "ok" if not bad else "FAIL %s" % bad[:4])
        if "--check" in sys.argv:
            c = subprocess.run([sys.executable, HERE + "/check.py", spec["PROP"]], capture_output=True, text=True,
                               env=dict(os.environ, VERIF_REPO=r))
            print(sid, "check rc", c.returncode, [l[:150] for l in c.stdout.splitlines() if "VIOL" in l or "rror" in l][:4])
            if c.returncode != 1:
                print(c.stdout[-800:], c.stderr[-300:])
        return 0
    finally:
        shutil.rmtree(work)


def ORIG(r):
    log = sh("git log --format='%H %s'", cwd=r).stdout.splitlines()
    for l in log:
        h, s = l.split(" ", 1)
        if not s.startswith("fix:"):
            return h


if __name__ == "__main__":
    sys.exit(main())
