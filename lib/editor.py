"""C19: the TAB key: Editor.tla -> keys typed into the real line editor."""
import asyncio, io, itertools, json, random, sys
from collections import Counter
import gram, tlc, real
from profiles import Gen, VOCAB
from gram import quote
from nessaid_cli.cli import NessaidCli
from nessaid_readline import async_readline as arl

EOLTXT = "NEWLINE: Complete command"
VOCS = [VOCAB["abbrev"], ["show", "set", "a", "in", "input", "x y", "x z", "x"], ["Any", "Anything", "An", "truck", "12", "1"],
        ["x y", "c\\nd", "c\\", 'q"t', "q", "b"], ["one", "oneself", "two", "True", "only"], ["tr", "true", "alphabet", "beta"]]


def form(s):
    return quote(s) if any(c in s for c in ' "\n\t\r\\') else s


def build(seed, n, depth):
    rng = random.Random(seed)
    c = gram.Corpus()
    pieces = []
    for i in range(n):
        voc = rng.choice(VOCS)
        g = Gen(rng, "g%d" % i, vocabulary=voc, nkw=rng.choice([1, 2, 2, 3, 4]), depth=rng.choice([1, 2, 2, 3]), typed=rng.choice([0, 0, .2, .4]),
                refs=rng.choice([0, 0, 1]), helps=rng.choice([0, 1]))
        sp, body, args = g.build()
        sp.roots.append({"name": g.name, "words": [], "maxlen": 0, "args": args})
        c.add(sp)
        fs = []
        for d in sp.tokens.values():
            if d["ty"] == "kw": fs.append(form(d["s"]))
            elif d["ty"] == "alt": fs += [form(x) for x in d["o"][:2]]
            elif d["ty"] == "int": fs += [str(d["lo"]), str(d["hi"])]
            elif d["ty"] == "bool": fs += ["T", "fal", "true"]
            elif d["ty"] == "str": fs += ["A", "txt", '"two w']
            elif d["ty"] == "rstr": fs += ["pq", "A"]
        ps = []
        for f in fs:
            ps.append(f if rng.random() < .4 else f[:rng.randint(1, max(1, len(f) - 1))])
            if rng.random() < .3: ps.append(f[rng.randint(0, len(f) - 1):])
        ps += rng.sample(["zz", '"', "Any s", "\\", "x"], 2)
        rng.shuffle(ps)
        ps = [" "] + list(dict.fromkeys(p for p in ps if p))[:6]
        pieces.append(ps)
    d = c.json()
    d.update(pieces=pieces, depth=depth)
    return c, d


KEYS = {"back": "\x7f", "left": "\x1b\x5b\x44", "int": "\x03", "enter": "\n", "tab": "\t"}


class Source:
    """the keys of one behaviour; what the line looks like after each of them"""
    def __init__(self, steps):
        self.steps, self.i, self.keys, self.rl, self.seen, self.opts = steps, 0, [], None, [], []
        self.done = asyncio.Event()

    async def key(self, rl):
        if not self.keys:
            if self.i: self.seen.append({"b": rl.get_line_buffer(), "o": self.opts})
            self.opts = []
            if self.i >= len(self.steps):
                self.done.set()
                await asyncio.Event().wait()
            s = self.steps[self.i]
            self.i += 1
            self.keys = list(s["t"]) if s["k"] == "type" else [KEYS[s["k"]]]
        return self.keys.pop(0)


SRC = None

async def _readchar(self): return await SRC.key(self)


class Cli(NessaidCli):
    def get_token_classes(self): return real.TOKEN_CLASSES
    async def complete(self, text, state):
        r = await super().complete(text, state)
        if r is not None: SRC.opts.append(r)
        return r


async def drive(gs, name, steps):
    global SRC
    SRC = Source(steps)
    cli = Cli(gs, loop=real.LOOP, prompt="> ", stdin=io.StringIO(), stdout=io.StringIO(), stderr=io.StringIO())
    t = asyncio.ensure_future(cli.cmdloop(name))
    d = asyncio.ensure_future(SRC.done.wait())
    await asyncio.wait({t, d}, return_when=asyncio.FIRST_COMPLETED)
    end = t.done()
    for x in (t, d): x.cancel()
    await asyncio.gather(t, d, return_exceptions=True)
    return SRC.seen, end


def fmt(entries):
    """the listing of a set of entries, as the command line lays it out"""
    for m in ("!lex", "!match"):
        if [m, ""] in entries: return [m]
    eol = ["<NEWLINE>", ""] in entries
    es = [e for e in entries if e != ["<NEWLINE>", ""]]
    if not es: return [EOLTXT]
    w = min(max(len(c) for c, _ in es), 40)
    if eol: w = min(max(w, len("NEWLINE")), 40)
    out = sorted(c.ljust(w) + " :    " + (h if h != "*" else "*") for c, h in es)
    return out + (["NEWLINE".ljust(w) + " :    Complete command"] if eol else [])


def same(entries, got):
    """is `got' a listing of the entries?  a word with several help texts is listed once"""
    got = ["!lex" if o.startswith("Failure tokenizing") else "!match" if o.startswith("Failed to parse") else o for o in got]
    pick = {}
    for c, h in entries: pick.setdefault(c if c else ("", h), []).append([c, h])
    n = 1
    for v in pick.values(): n *= len(v)
    if n > 64: return True
    for choice in itertools.product(*pick.values()):
        want = fmt(list(choice)) if choice else []
        if len(want) == len(got) and all(a == b or (a.endswith(" :    *") and b.startswith(a[:-1])) for a, b in zip(want, got)): return True
    return False


def replay(corpus, recs, keep=10):
    arl.NessaidAsyncReadline.readchar = _readchar
    texts = {r["name"]: t for r, t in zip(corpus.root, corpus.text)}
    diffs, cover, gss = [], Counter(), {}
    for r in recs:
        gs = gss.setdefault(r["g"], None) or real.compile_grammar(texts[r["g"]])
        gss[r["g"]] = gs
        want = [{"b": s["b"], "o": fmt(s["o"]) if s["o"] else []} for s in r["seen"]]
        try:
            got, ended = real.run(drive(gs, r["g"], r["did"]))
        except (Exception, real.Hang) as e:
            got, ended = repr(e), True
        bad = ended or len(got) != len(want) or next((i for i in range(len(want)) if want[i]["b"] != got[i]["b"] or not same(r["seen"][i]["o"], got[i]["o"])), None)
        if bad is not None and bad is not False:
            diffs.append(dict(aspect="editor", grammar=texts[r["g"]], line=[(s["k"], s["t"]) for s in r["did"]], expected=want, observed=got, extra=dict(at=bad)))
            if len(diffs) >= keep: break
        b = ""
        for s, x in zip(r["did"], r["seen"]):
            if s["k"] == "tab":
                cover["listed" if x["o"] else "inserted blank" if x["b"][-1:] == " " else "inserted text"] += 1
                if x["o"] and x["o"][0][0][:1] == "!": cover["refused"] += 1
            cover["key:" + s["k"]] += 1
            b = x["b"]
    return diffs, cover


def job(seed, n, depth, sim=0, sample=3000):
    c, d = build(seed, n, depth)
    if sim: res = tlc.run("Editor", d, workers=1, heap="2g", simulate=sim, depth=depth + 2, seed=seed)
    else: res = tlc.run("Editor", d, workers=1, heap="2g")
    recs = list({json.dumps([r["g"], r["did"]]): r for r in res.records}.values())
    if len(recs) > sample: recs = random.Random(seed).sample(recs, sample)
    diffs, cover = replay(c, recs)
    return dict(states=res.states, transitions=res.transitions, replayed=len(recs), diffs=diffs, cover=dict(cover),
                samples=[dict(grammar=c.text[0], keys=[s["k"] + ":" + s["t"] for s in r["did"]], lines=[s["b"] for s in r["seen"]]) for r in recs[-1:]])


if __name__ == "__main__":
    import time
    t = time.time()
    r = job(int(sys.argv[1]), int(sys.argv[2]), int(sys.argv[3]), *map(int, sys.argv[4:]))
    print("%.1fs" % (time.time() - t), {k: r[k] for k in ("states", "replayed", "cover")}, len(r["diffs"]))
    for x in sorted(r["diffs"], key=lambda d: len(d["grammar"]))[:3]:
        print(x["grammar"])
        for i, k in enumerate(x["line"]): print(k, x["expected"][i], x["observed"][i] if i < len(x["observed"]) and x["observed"][i] != x["expected"][i] else "")
