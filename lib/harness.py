"""Run the check of one property: its jobs in parallel, then the verdict and
the evidence file.  Exit 0: held; 1: VIOLATION; anything else: broken check."""
import concurrent.futures as cf
import importlib, json, multiprocessing as mp, os, sys, time, traceback

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, HERE)
CORES = int(os.environ.get("VERIF_CORES", "8"))


def do_job(job):
    """one job in its own process: {'module','func','params'} -> result"""
    import resource
    t = time.time()
    try:
        m = importlib.import_module(job["module"])
        r = getattr(m, job["func"])(**job["params"])
    except BaseException:
        r = {"error": traceback.format_exc()}
    r["wall"] = time.time() - t
    r["job"] = job
    return r


def key_of(d):
    """what identifies a difference in the known-findings file"""
    return json.dumps([d.get("aspect"), d.get("grammar"), d.get("line")], sort_keys=True)


def known_findings(pid):
    path = os.path.join(VERIF, "known-findings.jsonl")
    out = []
    if os.path.exists(path):
        for ln in open(path):
            ln = ln.strip()
            if ln.startswith("{"):
                f = json.loads(ln)
                if f["property"] == pid:
                    out.append(f)
    return out


def is_known(d, found):
    return any(all(d.get(k) == v for k, v in f["match"].items()) for f in found)


def main(pid):
    t0 = time.time()
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    import plan
    spec = plan.CHECKS[pid]
    jobs = spec["jobs"](tier, seed)
    print("%s: %d jobs, tier %s, seed %d" % (pid, len(jobs), tier, seed), flush=True)
    results, broken = [], []
    ctx = mp.get_context("spawn")
    limit = 780 if tier == "quick" else 3 * 3600
    with cf.ProcessPoolExecutor(max_workers=CORES, mp_context=ctx, max_tasks_per_child=1) as ex:
        futs = {ex.submit(do_job, j): j for j in jobs}
        try:
            for f in cf.as_completed(futs, timeout=limit):
                try:
                    r = f.result()
                except Exception as e:
                    r = {"error": "worker died: %r" % e, "job": futs[f], "wall": 0}
                if "error" in r:
                    broken.append(r)
                results.append(r)
        except cf.TimeoutError:
            broken.append({"error": "jobs still running after %ds" % limit, "job": None})
            for p in list(ex._processes.values()):
                p.kill()
    ok = [r for r in results if "error" not in r]
    diffs = [d for r in ok for d in r.get("diffs", [])]
    found = known_findings(pid)
    new = [d for d in diffs if not is_known(d, found)]
    hit = [f for f in found if any(all(d.get(k) == v for k, v in f["match"].items()) for d in diffs)]
    states = sum(r.get("states", 0) for r in ok)
    cov = {
        "states": states,
        "transitions": sum(r.get("transitions", 0) for r in ok),
        "traces_validated_against_impl": sum(r.get("replayed", 0) for r in ok),
        "samples": [s for r in ok for s in r.get("samples", [])][:8],
        "jobs": len(ok),
        "kinds": {},
    }
    for r in ok:
        for k, v in r.get("cover", {}).items():
            cov["kinds"][k] = cov["kinds"].get(k, 0) + v
        for k, v in r.get("actions", {}).items():
            cov.setdefault("spec_actions", {})
            cov["spec_actions"][k] = cov["spec_actions"].get(k, 0) + v
    # a run that exercised nothing is a broken check, not a pass
    for k in spec.get("need", []):
        if not cov["kinds"].get(k) and not broken and not new:
            broken.append({"error": "nothing of kind %r was exercised" % k, "job": None})
    ev = {"property": pid, "tier": tier, "seed": seed, "level": spec.get("level", "model_checking"), "coverage": cov,
          "assumptions": spec.get("assumptions", []), "violations": len(new), "wall_s": round(time.time() - t0, 1)}
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", pid + ".json"), "w") as fd:
        json.dump(ev, fd, indent=1, default=str)
    for f in hit:
        print("KNOWN-FINDING: property=%s %s" % (pid, f["what"]))
    print("states %d, replayed %d, differences %d, %.1fs" % (states, cov["traces_validated_against_impl"], len(new), ev["wall_s"]))
    print("kinds:", cov["kinds"])
    if new:
        new.sort(key=lambda d: len(json.dumps(d, default=str)))
        path = os.path.join("evidence", pid + ".replay.json")
        with open(os.path.join(VERIF, path), "w") as fd:
            json.dump(new[:20], fd, indent=1, default=str)
        print(json.dumps(new[0], default=str)[:3000])
        print("VIOLATION property=%s replay=%s" % (pid, os.path.join(VERIF, path)))
        return 1
    if broken:
        for b in broken[:3]:
            print("BROKEN:", b["job"], b["error"][-2500:], file=sys.stderr)
        return 2
    return 0


if __name__ == "__main__":
    sys.exit(main(sys.argv[1]))
