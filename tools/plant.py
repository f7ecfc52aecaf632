"""Development tool: writes seeded/<id>/ from a bug description and verifies it in a scratch copy.

Usage: plant.py make FILE.py | plant.py verify ID [--notests] | plant.py check ID
A description file defines BUGS, a list of dicts: id, property, edits [(file, old, new)], needs, breaks, demo.
"""

import importlib.util
import json
import os
import re
import shutil
import subprocess
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEEDED = os.path.join(ROOT, "seeded")
REPO = "/repo"
DEMO_SH = """#!/bin/bash
# Exits 0 if the property holds, nonzero if it is broken. Run in the repository's root.
export NUMBA_DISABLE_JIT=1 PYVISTA_OFF_SCREEN=true MPLBACKEND=Agg PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0
export OMP_NUM_THREADS=1
here="$(cd "$(dirname "$0")" && pwd)"
PYTHONPATH="$PWD" exec /opt/venv/bin/python "$here/demo.py"
"""


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, capture_output=True, text=True, **kw)


def scratch(tag):
    d = f"/tmp/plant_{tag}"
    shutil.rmtree(d, ignore_errors=True)
    sh(f"git -C {REPO} worktree prune")
    shutil.copytree(REPO, d, symlinks=True)
    return d


def make(path):
    spec = importlib.util.spec_from_file_location("bugs", path)
    mod = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(mod)
    for b in mod.BUGS:
        d = scratch("make")
        for f, old, new in b["edits"]:
            p = os.path.join(d, "building3d", f)
            s = open(p).read()
            assert s.count(old) == 1, f"{b['id']}: {s.count(old)} matches in {f}"
            open(p, "w").write(s.replace(old, new))
        diff = sh(f"git -C {d} diff").stdout
        assert diff, b["id"]
        out = os.path.join(SEEDED, b["id"])
        os.makedirs(out, exist_ok=True)
        open(os.path.join(out, "patch.diff"), "w").write(diff)
        open(os.path.join(out, "demo.sh"), "w").write(DEMO_SH)
        os.chmod(os.path.join(out, "demo.sh"), 0o755)
        open(os.path.join(out, "demo.py"), "w").write(b["demo"].lstrip("\n"))
        json.dump({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["breaks"]},
                  open(os.path.join(out, "meta.json"), "w"), indent=1)
        shutil.rmtree(d)
        print("made", b["id"])


def base_lines_ok(id, d):
    """Every removed line has to be one of the original repository, at least one."""
    base = sh(f"git -C {REPO} rev-list --max-parents=0 HEAD").stdout.split()[0]
    bad = 0
    cur = None
    for line in open(os.path.join(SEEDED, id, "patch.diff")):
        m = re.match(r"--- a/(.*)", line)
        if m:
            cur = sh(f"git -C {REPO} show {base}:{m.group(1)}").stdout.splitlines()
        elif line.startswith("-") and not line.startswith("---"):
            if line[1:].rstrip("\n") not in (cur or []) and line[1:].strip():
                bad += 1
    return bad


def verify(id, tests=True):
    out = os.path.join(SEEDED, id)
    clean = sh(f"bash {out}/demo.sh", cwd=REPO)
    d = scratch(id)
    res = {"clean demo": clean.returncode}
    if clean.returncode:
        print(clean.stdout[-800:], clean.stderr[-1500:])
    a = sh(f"git -C {d} apply {out}/patch.diff")
    res["apply"] = a.returncode
    pd = sh(f"bash {out}/demo.sh", cwd=d)
    res["patched demo"] = pd.returncode
    res["demo says"] = (pd.stdout + pd.stderr).strip().splitlines()[-1:]
    res["lines not in base"] = base_lines_ok(id, d)
    if tests:
        t = open("/opt/vp/test.sh").read().replace("cd /repo", f"cd {d}")
        if tests == "fast":  # Only with the JIT compiler off
            t = t.replace("for mode in nojit jit", "for mode in nojit")
        open(f"/tmp/plant_{id}.sh", "w").write(t)
        r = sh(f"nice bash /tmp/plant_{id}.sh /tmp/plant_{id}.json")
        res["tests"] = r.stdout.strip().splitlines()[-1:]
        if " 0 failed" not in r.stdout:
            print([x for x in r.stdout.splitlines() if x.startswith("FAILED")])
        for f in (f"/tmp/plant_{id}.sh", f"/tmp/plant_{id}.json"):
            if os.path.exists(f):
                os.remove(f)
    ok = res["clean demo"] == 0 and res["apply"] == 0 and res["patched demo"] != 0
    print(id, "OK" if ok else "BAD", res, flush=True)
    shutil.rmtree(d)


def check(id, seed="1"):
    """Runs the property's check against a scratch copy with the bug."""
    out = os.path.join(SEEDED, id)
    prop = json.load(open(os.path.join(out, "meta.json")))["property"]
    d = scratch("check_" + id)
    sh(f"git -C {d} apply {out}/patch.diff")
    r = sh(f"{ROOT}/check.sh {prop} quick", env={**os.environ, "PBT_REPO": d, "VERIF_SEED": seed, "PBT_EVIDENCE": d + "/evidence"})
    last = [x for x in r.stdout.splitlines() if x.startswith(("VIOLATION", "message", prop))]
    path = os.path.join(ROOT, "tools", "caught.txt")
    old = [x for x in (open(path).read().splitlines() if os.path.exists(path) else []) if not x.startswith(id + " ")]
    word = {0: "missed", 1: prop}.get(r.returncode, "error")
    open(path, "w").write("\n".join(sorted(old + [f"{id} {word}"])) + "\n")
    print(id, {0: "MISSED", 1: "caught"}.get(r.returncode, f"ERROR {r.returncode} {r.stderr[-600:]}"), last[:1], flush=True)
    shutil.rmtree(d)


if __name__ == "__main__":
    if sys.argv[1] == "make":
        make(sys.argv[2])
    elif sys.argv[1] == "verify":
        for i in sys.argv[2:]:
            if not i.startswith("-"):
                verify(i, tests="fast" if "--fast" in sys.argv else "--notests" not in sys.argv)
    else:
        for i in sys.argv[2:]:
            check(i)
