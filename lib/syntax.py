"""C20: texts of grammar specifications from the machine of Syntax.tla."""
import contextlib, io, json, random
from collections import Counter
import gram, tlc, real, core
from gram import quote


def S(k, v=""):
    return {"k": k, "v": v}


PUNCT = ["(", ")", "{", "}", "[", "]", "|", ",", "*", ":", ";", "=", "<<", ">>", "&", "?", "junk"]


def sym(t):
    """a symbol from its usual spelling"""
    if isinstance(t, dict): return t
    if t in PUNCT or t in ("token", "call"): return S(t)
    if t in ("True", "None"): return S(t.lower())
    if t in ("StringToken", "AlternativeStringsToken"): return S("cls", t)
    if t.startswith('"'): return S("str", t[1:-1])
    if t.startswith("$"): return S("dn", int(t[1:])) if t[1].isdigit() else S("dv", t)
    if t.lstrip("-").isdigit(): return S("int", int(t))
    return S("id", t)


def syms(text):
    return [sym(t) for t in text.split()]


def spell(s, rng):
    k, v = s["k"], s["v"]
    if k == "str": return quote(v)
    if k == "int": return ("+" if rng.random() < .1 and v > 0 else "") + str(v)
    if k in ("id", "dv", "cls"): return v
    if k == "dn": return "$%d" % v
    if k == "true": return "True"
    if k == "none": return "None"
    if k == "junk": return rng.choice(["?", "!", "'", "\\x", "@", ".", "%", "0x", '"open\n'])
    return k


WORDY = {"id", "int", "dv", "dn", "cls", "token", "call", "true", "none"}
SEP = [" ", " ", " ", "\n", "\t", "\n\n  ", "\r\n", "   ", " # note ; | ( \"\n", " // note [ : << \n", " /* a * b ; \n c */ ", "/**/"]


def render(seq, rng):
    """the text with blanks, line ends and comments between its symbols, none where none is needed"""
    out, inside = rng.choice(["", "\n", "# head\n", " "]), False
    for i, s in enumerate(seq):
        if s["k"] == "<<": inside = True
        if s["k"] == ">>": inside = False
        out += spell(s, rng)
        nxt = seq[i + 1]["k"] if i + 1 < len(seq) else ""
        tight = not (s["k"] in WORDY and nxt in WORDY) and "junk" not in (s["k"], nxt)
        if tight and rng.random() < .3: continue
        sep = rng.choice(SEP)
        # what stands between << and >> may not contain the sign that ends it
        out += sep
    return out


def to_spec(rec, prefix):
    sp = gram.Spec(prefix)
    cls = {t["n"]: t for t in rec["tk"]}
    kws = set()

    def key(t, h):
        if "kw" in t:
            kws.add(t["kw"])
            return sp.kwtok(t["kw"], h)
        d = cls[t["id"]]
        k = (prefix + d["n"], h)
        if d["cls"] == "CliToken":
            kws.add(d["n"])
            sp.tokens.setdefault(k, {"ty": "kw", "s": d["n"], "h": h})
        elif d["cls"] == "StringToken":
            kws.add("txt")
            sp.tokens.setdefault(k, {"ty": "str", "h": h})
        else:
            kws.update(d["args"])
            sp.tokens.setdefault(k, {"ty": "alt", "o": d["args"], "h": h})
        return k

    def conv(x):
        y = {k: v for k, v in x.items() if k not in ("c", "t", "h", "args")}
        y["c"] = [conv(c) for c in x["c"]]
        if x["k"] == "tok": y["t"] = key(x["t"], x["h"])
        if x["k"] == "ref": y["args"] = [(a["p"], a["v"]) for a in x["args"]]
        return y

    for g in rec["gr"]:
        sp.gram(g["n"], [(p["x"], p["d"] if p["has"] else None) for p in g["par"]], conv(g["body"]))
    # grammars which no other of the text uses are exposed; the last one always
    words = sorted(kws)[:5] + ["zz"]
    sp.roots.append({"name": rec["gr"][-1]["n"], "words": words, "maxlen": 3, "args": []})
    return sp


def accept(text):
    with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
        try:
            return real.run(_compile(text)), None
        except (Exception, real.Hang) as e:
            return None, repr(e)


async def _compile(text):
    return real.compile_grammar(text)


def job(seed, start, alphabet, maxlen, texts=2500, langs=60, sim=None, simdepth=25, keep=40):
    rng = random.Random(seed)
    conf = {"sym": [sym(a) for a in alphabet.split()], "start": [syms(s) for s in start], "maxlen": maxlen if not sim else simdepth}
    res = tlc.run("SyntaxMC", conf, workers=1, heap="3g", simulate=sim, depth=simdepth + 2, seed=seed)
    seen, recs = set(), []
    for r in res.records:
        k = json.dumps(r["t"], sort_keys=True)
        if k not in seen:
            seen.add(k)
            recs.append(r)
    total = len(recs)
    # as many accepted as rejected texts, of all lengths
    by = {}
    for r in recs: by.setdefault((r["ok"], r["n"]), []).append(r)
    for v in by.values(): rng.shuffle(v)
    pick, lists = [], list(by.values())
    while len(pick) < texts and any(lists):
        for l in lists:
            if l: pick.append(l.pop())
    cover, diffs, smp = Counter(), [], []
    c, seen_ast, args = gram.Corpus(), set(), {}
    good = []
    for n, r in enumerate(pick):
        text = render(r["t"], rng)
        gs, exc = accept(text)
        cover["accepted" if r["ok"] else "rejected"] += 1
        if (gs is not None) != r["ok"]:
            diffs.append({"aspect": "accepted" if gs is not None else "refused", "grammar": text, "line": [], "expected": "accepted" if r["ok"] else "refused",
                          "observed": exc or "accepted", "extra": " ".join(spell(s, rng) for s in r["t"])})
            if len(diffs) >= keep: break
            continue
        if r["ok"]:
            for g in r["gr"]:
                if gs.get_grammar(g["n"]) is None:
                    diffs.append({"aspect": "missing", "grammar": text, "line": [], "expected": g["n"], "observed": None, "extra": None})
            ast = json.dumps([r["gr"], r["tk"]], sort_keys=True)
            if r["gr"] and ast not in seen_ast:
                seen_ast.add(ast)
                good.append((r, text, gs))
    # what the accepted texts mean
    rng.shuffle(good)
    good = good[:langs]
    table = {}
    for n, (r, text, gs) in enumerate(good):
        sp = to_spec(r, "x%d_" % n)
        k = len(c.root)
        c.add(sp)
        real_name = c.root[k]["name"]
        c.root[k]["name"] = "x%d:%s" % (n, real_name)
        table[c.root[k]["name"]] = (real_name, text, gs)
    m = len(pick)
    states, trans = res.states, res.transitions
    if good:
        cj = c.json()
        cj["helps"] = True
        res2 = tlc.run("Cli", cj, workers=1, heap="2g")
        states, trans = states + res2.states, trans + res2.transitions
        by = {}
        for r in {(r["g"], tuple(r["w"])): r for r in res2.records}.values(): by.setdefault(r["g"], []).append(r)
        for name, rs in by.items():
            rn, text, gs = table[name]
            cli = real.Recorder(gs)
            cli.enter_grammar(rn)
            for r in rs:
                m += 1
                cover["line:" + r["r"]] += 1
                d = core.compare_line(cli, r, [], {"result", "effects", "offers", "noeffect"}, text)
                diffs += [x.as_dict() for x in d]
            if len(diffs) >= keep: break
    smp = [{"text": render(r["t"], rng), "ok": r["ok"]} for r in pick[:3]]
    cover["languages"] = len(good)
    cover["texts"] = total
    return {"states": states, "transitions": trans, "replayed": m, "diffs": diffs[:keep], "cover": dict(cover), "samples": smp}


if __name__ == "__main__":
    import sys, time
    t = time.time()
    r = job(int(sys.argv[1]), sys.argv[2].split("@"), sys.argv[3], int(sys.argv[4]), sim=int(sys.argv[5]) if len(sys.argv) > 5 else None)
    print(r["states"], r["replayed"], r["cover"], len(r["diffs"]), "%.1fs" % (time.time() - t))
    for d in sorted(r["diffs"], key=lambda d: len(str(d)))[:4]: print(json.dumps(d, indent=1)[:1500])
