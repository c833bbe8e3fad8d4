"""Run the check of each planted bug against a scratch copy which has the bug. usage: try.py [ID...]"""
import json, os, shutil, subprocess, sys, time
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = sys.argv[1:] or sorted(os.listdir(ROOT + "/seeded"))
W = "/tmp/x/trywork"
for b in ids:
    d = os.path.join(ROOT, "seeded", b)
    pid = json.load(open(d + "/meta.json"))["property"]
    if pid not in json.dumps(json.load(open(ROOT + "/MANIFEST.json"))["checks"]):
        print(b, pid, "not claimed"); continue
    shutil.rmtree(W, ignore_errors=True)
    subprocess.run(["cp", "-a", "/repo", W], check=True)
    subprocess.run(["git", "apply", d + "/patch.diff"], cwd=W, check=True)
    t = time.time()
    r = subprocess.run([ROOT + "/checks/run", pid, "quick"], env=dict(os.environ, VERIF_REPO=W, VERIF_SEED="1"), capture_output=True, text=True)
    v = [l for l in r.stdout.split("\n") if l.startswith("VIOLATION")]
    print(b, pid, "CAUGHT" if r.returncode == 1 and v else "MISSED rc=%d" % r.returncode, "%ds" % (time.time() - t), (v or [""])[0][:150], flush=True)
    if r.returncode == 2: print(r.stdout[-500:], r.stderr[-500:])
shutil.rmtree(W, ignore_errors=True)
