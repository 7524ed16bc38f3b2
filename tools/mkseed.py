#!/usr/bin/env python3
"""Plant a bug: mkseed.py SPEC.py -- SPEC defines ID, PROP, NEEDS, BREAKS, EDITS=[(file, old, new)], DEMO (python text).
Confirms: applies, builds, stable tests pass, demo 0 clean / nonzero patched; writes /verif/seeded/ID; then runs the check."""
import json, os, shutil, runpy, subprocess, sys, tempfile
R = os.environ.get("SEED_REPO", "/tmp/seed/repo")  # a scratch clone of /repo
if not os.path.isdir(R): os.makedirs(os.path.dirname(R), exist_ok=True); subprocess.run(["git", "clone", "-q", "/repo", R], check=True)
ENV = {**os.environ, "PYTHONPATH": R + "/src", "PYTHONDONTWRITEBYTECODE": "1", "LC_ALL": "C.UTF-8", "PYTHONHASHSEED": "0"}
def sh(*a, **k): return subprocess.run(a, capture_output=True, text=True, **k)
def clean(): sh("git", "-C", R, "checkout", "--", ".")
def seed(s):
    d = f"/verif/seeded/{s['ID']}"; os.makedirs(d, exist_ok=True)
    open(d + "/demo.py", "w").write(s["DEMO"].lstrip("\n"))
    open(d + "/demo.sh", "w").write('#!/bin/sh\nd=$(cd "$(dirname "$0")" && pwd)\nPYTHONPATH="$PWD/src" PYTHONDONTWRITEBYTECODE=1 exec /opt/venv/bin/python "$d/demo.py"\n')
    os.chmod(d + "/demo.sh", 0o755)
    json.dump({"property": s["PROP"], "needs": s["NEEDS"], "what_it_breaks": s["BREAKS"]}, open(d + "/meta.json", "w"), indent=1)
    assert not sh("git", "-C", R, "status", "--short", "-uno").stdout.strip(), "repo dirty"
    r = sh(d + "/demo.sh", cwd=R, timeout=300)
    ok = r.returncode == 0
    if not ok: print("DEMO FAILS ON CLEAN", r.stdout[-800:], r.stderr[-800:])
    try:
        for f, old, new in s["EDITS"]:
            p = f"{R}/src/cwl_utils/{f}"; t = open(p).read()
            assert t.count(old) == 1, (f, old, t.count(old))
            open(p, "w").write(t.replace(old, new))
        open(d + "/patch.diff", "w").write(sh("git", "-C", R, "diff").stdout)
        o = tempfile.mkdtemp()
        sh("/opt/venv/bin/python", "-m", "pytest", "-q", "-p", "no:cacheprovider", "-n", "8", "--dist", "loadfile", "--timeout=300", "-o", "junit_family=xunit2", f"--junitxml={o}/junit.xml", cwd=R, env=ENV)
        sh("/usr/bin/python3", "/opt/vp/results.py", o + "/out.json", f"junit:{o}/junit.xml")
        res = json.load(open(o + "/out.json")); shutil.rmtree(o)
        base = json.load(open("/opt/vp/BASELINE.json"))
        def passed(j):
            for k in ("stable", "passed", "pass", "tests"):
                if k in j: return set(j[k]) if not isinstance(j[k], dict) else {n for n, v in j[k].items() if v in ("passed", True, "pass")}
            raise SystemExit(str(list(j)))
        miss = passed(base) - passed(res)
        if miss: print("TESTS FAIL", sorted(miss)[:5]); ok = False
        r = sh(d + "/demo.sh", cwd=R, timeout=300)
        if r.returncode == 0: print("DEMO PASSES WITH PATCH"); ok = False
        if os.path.exists(f"/verif/checks/{s['PROP'].lower()}.py") and not os.environ.get("NOCHECK"):
            r = sh("./check.py", s["PROP"], cwd="/verif", env=ENV)
            print(s["ID"], "check:", r.returncode, [l for l in r.stdout.splitlines() if "VIOLATION" in l][:2])
    finally:
        clean()
    print(s["ID"], "OK" if ok else "BAD")
for a in sys.argv[1:]:
    g = runpy.run_path(a)
    for s in (g["SEEDS"] if "SEEDS" in g else [g]):
        try: seed(s)
        except Exception as e: clean(); print(s["ID"], "ERROR", repr(e)[:300])
