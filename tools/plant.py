"""Turn descriptions of planted bugs into seeded/<id>/, each confirmed in a scratch copy of /repo.
   usage: plant.py FILE.py [ID...]     FILE.py defines BUGS = [dict(id, prop, edits, demo, needs, breaks)]"""
import json, os, shutil, subprocess, sys, runpy
HERE = os.path.dirname(os.path.abspath(__file__))
OUT = os.path.join(os.path.dirname(HERE), "seeded")
bugs = runpy.run_path(sys.argv[1])["BUGS"]
W = "/tmp/x/plantwork"
PY = "/opt/venv/bin/python"


def sh(c, **k):
    return subprocess.run(c, shell=True, capture_output=True, text=True, cwd=W, **k)


for b in bugs:
    if sys.argv[2:] and b["id"] not in sys.argv[2:]: continue
    shutil.rmtree(W, ignore_errors=True)
    subprocess.run(["cp", "-a", "/repo", W], check=True)
    d = "/tmp/x/plantdemo/" + b["id"]
    shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
    shutil.copy(os.path.join(HERE, "demolib.py"), d)
    open(d + "/demo.py", "w").write("from demolib import *\n" + b["demo"].lstrip("\n"))
    open(d + "/demo.sh", "w").write('#!/bin/bash\nexec timeout 120 /opt/venv/bin/python -B "$(dirname "$0")/demo.py"\n')
    clean = sh("bash %s/demo.sh" % d)
    ok = True
    for f, old, new in b["edits"]:
        s = open(os.path.join(W, f)).read()
        if s.count(old) != 1:
            print(b["id"], "EDIT matches", s.count(old), "times:", old); ok = False
        open(os.path.join(W, f), "w").write(s.replace(old, new))
    if not ok: continue
    diff = sh("git diff").stdout
    orig = sh("git show 79ddf07:" + b["edits"][0][0]).stdout.split("\n")
    for ln in diff.split("\n"):
        if ln.startswith("-") and not ln.startswith("---") and ln[1:] not in orig and len(b["edits"]) == 1:
            print(b["id"], "NOTE not an original line:", ln)
    bad = sh("bash %s/demo.sh" % d)
    comp = sh(PY + " -m compileall -q nessaid_cli")
    t = sh("PYTHONPYCACHEPREFIX=/nonexistent/x PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 TERM=dumb " + PY + " -B -m pytest -q -p no:cacheprovider nessaid_cli_tests </dev/null")
    tests_ok = t.returncode == 0 and "6 passed" in t.stdout
    good = clean.returncode == 0 and bad.returncode == 1 and comp.returncode == 0 and tests_ok and diff
    print(b["id"], b["prop"], "OK" if good else "REJECTED clean=%s bad=%s compile=%s tests=%s" % (clean.returncode, bad.returncode, comp.returncode, t.stdout[-200:]))
    if not good:
        print(clean.stdout[-1500:], clean.stderr[-1500:], "\n---\n", bad.stdout[-600:], bad.stderr[-1500:])
        continue
    o = os.path.join(OUT, b["id"])
    shutil.rmtree(o, ignore_errors=True)
    shutil.copytree(d, o)
    shutil.rmtree(o + "/__pycache__", ignore_errors=True)
    open(o + "/patch.diff", "w").write(diff)
    json.dump({"property": b["prop"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, open(o + "/meta.json", "w"), indent=1)
shutil.rmtree(W, ignore_errors=True)
