"""C17: long histories on two interfaces over one specification."""
import asyncio, json, random
from collections import Counter
import gram, tlc, real
from profiles import Gen

SIZES = [0, 1, 2, 5, 128]


def build(seed, n, prof, pool=8):
    """specifications whose sub-grammars can be entered too, and a pool of lines for each"""
    rng = random.Random(seed)
    c = gram.Corpus()
    group, args = [], {}
    for i in range(n):
        p = dict(prof)
        abbr, maxlen, lay = p.pop("abbr", 0), p.pop("maxlen", 4), p.pop("layout", False)
        for k, v in list(p.items()):
            if isinstance(v, (tuple, list)) and k in ("nkw", "depth", "refs"): p[k] = rng.randint(*v)
        g = Gen(rng, "h%d" % i, **p)
        sp, body, a = g.build()
        words = g.words(abbr=abbr, junk=True, limit=5)
        names = [g.name] + [nm for nm, _, _ in g.avail]
        for nm in names:
            sp.roots.append({"name": nm, "words": words, "maxlen": maxlen if nm == g.name else min(3, maxlen), "args": a if nm == g.name else []})
            args[nm] = [real.pyval(x) for x in a] if nm == g.name else []
        k = len(c.root)
        c.add(sp, gram.Layout(rng) if lay else None)
        group.append({"name": g.name, "roots": [k + 1 + j for j in range(len(names))]})
    # lines of every verdict
    res = tlc.run("Cli", c.json(), workers=1, heap="2g")
    by = {}
    for r in res.records:
        if r["w"]: by.setdefault(r["g"], {}).setdefault(r["r"], set()).add(tuple(r["w"]))
    for rt in c.root:
        kinds = by.get(rt["name"], {})
        lists = {k: sorted(v) for k, v in sorted(kinds.items())}
        for v in lists.values(): rng.shuffle(v)
        rt["lines"] = []
        while len(rt["lines"]) < pool and any(lists.values()):
            for k, n in (("success", 3), ("partial", 1), ("ambigous", 2), ("failure", 1)):
                for _ in range(n):
                    if lists.get(k): rt["lines"].append(list(lists[k].pop()))
        rt["lines"] = rt["lines"] or [["zz"]]
    return c, group, args


def job(seed, n, prof, sim=40, depth=30, sizes=SIZES, keep=40):
    c, group, args = build(seed, n, prof)
    cj = c.json()
    cj.update(group=group, depth=depth, sizes=sizes)
    res = tlc.run("History", cj, workers=1, heap="2g", simulate=sim, depth=depth + 2, seed=seed)
    tab = next(r["tab"] for r in res.records if "tab" in r)
    texts = {g["name"]: t for g, t in zip(group, c.text)}
    diffs, cover, smp, runs, m = [], Counter(), [], 0, 0
    gss, heads = {}, set()
    for rec in res.records:
        if "hist" not in rec: continue
        head = json.dumps([rec["s"], rec["size"], rec["hist"][:-1]])     # TLC shows every way to end a walk
        if head in heads: continue
        heads.add(head)
        runs += 1
        name, size = rec["s"], rec["size"]
        if name not in gss: gss[name] = real.compile_grammar(texts[name])
        clis = []
        for _ in range(2):
            clis.append(real.Recorder(gss[name], str_cache_size=size, token_value_cache_size=size))
            clis[-1].enter_grammar(c.root[next(g for g in group if g["name"] == name)["roots"][0] - 1]["name"])
        done = []
        def bad(aspect, e, o):
            diffs.append({"aspect": aspect, "grammar": texts[name], "line": list(done), "expected": e, "observed": o, "extra": "table size %d" % size})
        for op in rec["hist"]:
            m += 1
            o = op["o"]
            cli = clis[op["k"] - 1]
            cover["op:" + o] += 1
            if o == "enter":
                cli.enter_grammar(c.root[op["r"] - 1]["name"])
                done.append([o, op["k"], c.root[op["r"] - 1]["name"]])
                continue
            if o == "leave":
                cli.exit_grammar()
                done.append([o, op["k"]])
                continue
            e = tab[op["r"] - 1][op["i"] - 1]
            done.append([o, op["k"], e["g"], e["w"]])
            cover["line:" + e["r"]] += 1
            if o in ("next", "type"):
                s = real.suggest(cli, e["w"], o == "next")
                want = sorted(e["nx" if o == "next" else "ty"])
                if s.nx != want: bad("offers", want, s.nx)
                if s.r != ("partial" if want else "failure"): bad("offers-result", "partial" if want else "failure", s.r)
                if s.log: bad("dry run effects", [], real.canon_log(s.log))
                cover["offers"] += len(want)
                continue
            todo = [(cli, e)]
            if o == "both":
                e2 = tab[op["r2"] - 1][op["j"] - 1]
                todo.append((clis[1], e2))
                done[-1] += [e2["g"], e2["w"]]
                cover["line:" + e2["r"]] += 1
            for (k, x), got in zip(todo, execute_all([(k, x["w"], args[x["g"]]) for k, x in todo])):
                if got.r != x["r"]: bad("result", x["r"], got.r if got.r != "exception" else got.exc); continue
                a, b = real.canon_log(x["log"]), real.canon_log(got.log)
                if a != b: bad("effects", a, b)
                if x["r"] == "success":
                    for f in ("vals", "out"):
                        a, b = [real.canon(v) for v in x[f]], [real.canon(v) for v in getattr(got, f)]
                        if a != b: bad(f, a, b)
        if len(diffs) >= keep: break
        if len(smp) < 2: smp.append({"grammar": texts[name], "size": size, "history": done[:8]})
    cover["histories"] = runs
    return {"states": res.states, "transitions": res.transitions, "replayed": m, "diffs": diffs[:keep], "cover": dict(cover), "samples": smp}


def execute_all(todo):
    """execute lines on different interfaces at the same time"""
    if len(todo) == 1:
        return [real.execute(*todo[0])]
    out = []
    async def one(cli, line, al):
        o = real.Observation()
        try:
            r = await cli.match(list(line), dry_run=False, last_token_complete=True, arglist=al)
            o.r, o.vals, o.exc = r.result, [real.project(v) for v in r.matched_values], None
        except (Exception, real.Hang) as e:
            o.r, o.vals, o.exc = "exception", [], repr(e)
        o.log = list(cli.events)
        o.out = [real.project(v) for v in al]
        return o
    async def all_():
        return await asyncio.gather(*[one(c, l, list(a)) for c, l, a in todo])
    for c, _, _ in todo: c.events.clear()
    return real.run(all_())


if __name__ == "__main__":
    import sys, time
    t = time.time()
    r = job(int(sys.argv[1]), int(sys.argv[2]), json.loads(sys.argv[3]), sim=int(sys.argv[4]))
    print(r["states"], r["replayed"], r["cover"], len(r["diffs"]), "%.1fs" % (time.time() - t))
    for d in sorted(r["diffs"], key=lambda d: len(str(d)))[:3]: print(json.dumps(d, indent=1)[:3000])
