"""Grammar machine: corpus -> TLC (expected outcome of every line) -> real code."""
import random, json, sys
import gram, tlc, real
from profiles import Gen


def build(seed, n, prof, maxstates=None):
    """n random grammars under one profile"""
    rng = random.Random(seed)
    c = gram.Corpus()
    specs = {}
    for i in range(n):
        p = dict(prof)
        abbr, junk, limit, maxlen, lay = (p.pop("abbr", 0), p.pop("junk", True), p.pop("limit", 5),
                                          p.pop("maxlen", 5), p.pop("layout", False))
        for k, v in list(p.items()):
            if isinstance(v, (tuple, list)) and k in ("nkw", "depth", "refs"):
                p[k] = rng.randint(*v)
            elif isinstance(v, list) and k in ("vocab", "typed", "actions"):
                p[k] = rng.choice(v)
        g = Gen(rng, "g%d" % i, **p)
        sp, body, args = g.build()
        words = g.words(abbr=abbr, junk=junk, limit=limit)
        free = any(d["ty"] in ("str", "rstr") for d in sp.tokens.values())
        ml = maxlen if not free else min(maxlen, 4)
        sp.roots.append({"name": g.name, "words": words, "maxlen": ml, "args": args})
        c.add(sp, gram.Layout(rng) if lay else None)
        specs[g.name] = (sp, args)
    c.args = {k: [real.pyval(a) for a in v[1]] for k, v in specs.items()}
    return c


class Diff:
    def __init__(self, aspect, g, line, expected, observed, text, extra=None):
        self.aspect, self.g, self.line, self.expected, self.observed, self.text = aspect, g, line, expected, observed, text
        self.extra = extra
    def as_dict(self):
        return {"aspect": self.aspect, "grammar": self.text, "root": self.g, "line": self.line,
                "expected": self.expected, "observed": self.observed, "extra": self.extra}


def compare_line(cli, rec, args, aspects, text):
    """replay one state of the specification into the real code"""
    out = []
    g, line = rec["g"], rec["w"]
    def bad(aspect, e, o, extra=None):
        out.append(Diff(aspect, g, line, e, o, text, extra))
    if aspects & {"result", "effects", "values", "noeffect"} and line:
        o = real.execute(cli, line, args)
        if o.r != rec["r"]:
            if "result" in aspects:
                bad("result", rec["r"], o.r, o.exc)
        if rec["r"] == "success":
            if "effects" in aspects:
                e, a = real.canon_log(rec["log"]), real.canon_log(o.log)
                if e != a: bad("effects", e, a)
                e, a = [real.canon(v) for v in rec["out"]], [real.canon(v) for v in o.out]
                if e != a: bad("arguments", e, a)
            if "values" in aspects and o.r == "success":
                e, a = [real.canon(v) for v in rec["vals"]], [real.canon(v) for v in o.vals]
                if e != a: bad("values", e, a)
        elif o.log and "noeffect" in aspects:
            bad("noeffect", [], real.canon_log(o.log))
    if aspects & {"offers", "dryeffects"}:
        for complete, key in ((True, "nx"), (False, "ty")):
            o = real.suggest(cli, line, complete)
            if "offers" in aspects:
                if sorted(rec[key]) != o.nx: bad("offers/" + key, sorted(rec[key]), o.nx, o.exc)
                want = "partial" if rec[key] else "failure"
                if o.r != want: bad("offers-result/" + key, want, o.r, o.exc)
                hk = {"nx": "hx", "ty": "hy"}[key]
                if hk in rec:
                    e = rec[hk]
                    if any([c, h] not in e and [c, "*"] not in e for c, h in o.helps) or {c for c, h in e} != {c for c, h in o.helps}:
                        bad("helps/" + key, e, o.helps)
            if o.log and "dryeffects" in aspects:
                bad("dryeffects", [], real.canon_log(o.log))
    return out


def replay(corpus, records, aspects, limit=50, fresh=False):
    diffs, n = [], 0
    texts = {r["name"]: t for r, t in zip(corpus.root, corpus.text)}
    by = {}
    for r in records:
        by.setdefault(r["g"], []).append(r)
    for g, recs in by.items():
        try:
            gs = real.compile_grammar(texts[g])
            cli = real.Recorder(gs)
            cli.enter_grammar(g)
        except Exception as e:
            diffs.append(Diff("compile", g, [], "compiles", repr(e), texts[g]))
            continue
        for r in recs:
            n += 1
            if fresh:
                cli = real.Recorder(gs)
                cli.enter_grammar(g)
            diffs += compare_line(cli, r, corpus.args.get(g, []), aspects, texts[g])
            if len(diffs) >= limit:
                return diffs, n
        cli.exit_grammar()
    return diffs, n


def job(seed, n, prof, aspects, keep=40):
    """a corpus through TLC and every state of it through the real code"""
    from collections import Counter
    c = build(seed, n, prof)
    cj = c.json()
    if "offers" in aspects: cj["helps"] = True
    res = tlc.run("Cli", cj, workers=1, heap="2g")
    recs = list({(r["g"], tuple(r["w"])): r for r in res.records}.values())
    d, m = replay(c, recs, set(aspects), limit=keep)
    cover = Counter("line:" + r["r"] for r in recs)
    cover["actions"] = sum(len(r.get("log", [])) for r in recs)
    cover["offers"] = sum(len(r["nx"]) + len(r["ty"]) for r in recs)
    cover["helps"] = sum(len(r.get("hx", [])) + len(r.get("hy", [])) for r in recs)
    cover["grammars"] = len(c.root)
    rng = random.Random(seed)
    samples = []
    for r in rng.sample(recs, min(2, len(recs))):
        text = dict(zip([x["name"] for x in c.root], c.text))[r["g"]]
        samples.append({"grammar": text, "line": r["w"], "expected": r["r"], "offers": r["nx"], "log": r.get("log")})
    return {"states": res.states, "transitions": res.transitions, "replayed": m, "diffs": [x.as_dict() for x in d],
            "cover": dict(cover), "samples": samples}


if __name__ == "__main__":
    import time
    prof = json.loads(sys.argv[3])
    t = time.time()
    c = build(int(sys.argv[1]), int(sys.argv[2]), prof)
    res = tlc.run("Cli", c.json())
    t1 = time.time()
    recs = {(r["g"], tuple(r["w"])): r for r in res.records}
    d, n = replay(c, list(recs.values()), set(sys.argv[4].split(",")), limit=100000)
    from collections import Counter
    print("states", res.states, "tlc %.1fs" % (t1 - t), "replay %.1fs" % (time.time() - t1), "lines", n,
          Counter(r["r"] for r in recs.values()))
    print(Counter(x.aspect + ":" + (str(x.expected) + "->" + str(x.observed) if x.aspect == "result" else "") for x in d))
    seen = set()
    for x in sorted(d, key=lambda x: (len(x.text), len(x.line))):
        if (x.aspect, str(x.expected)[:7], str(x.observed)[:7]) in seen: continue
        seen.add((x.aspect, str(x.expected)[:7], str(x.observed)[:7]))
        print(json.dumps(x.as_dict(), indent=1, default=str)[:2500])
