"""C11, C12: declared tokens against typed words."""
import random
import tlc, real, text, gram

T = real.T


def declare(d):
    """the token of the real package, built directly"""
    ty, n = d["ty"], "X"
    kw = {"helpstring": d["h"]} if d["h"] else {}
    if ty == "kw": return T.CliToken(d["s"], **kw)
    if ty == "str": return T.StringToken(n, **kw)
    if ty == "int":
        a = (d["hi"], d["lo"]) if d.get("swap") else (d["lo"], d["hi"])
        if d.get("text"): a = tuple(str(x) for x in a)
        return T.RangedIntToken(n, *a, **(dict(kw, max_suggestions=d["sug"]) if d["sug"] != 10 else kw))
    if ty == "rstr":
        a = (d["hi"], d["lo"]) if d.get("swap") else (d["lo"], d["hi"])
        return T.RangedStringToken(n, *a, **kw)
    if ty == "alt":
        if d.get("form") == "args": return T.AlternativeStringsToken(n, *d["o"], **kw)
        return T.AlternativeStringsToken(n, {"list": list, "tuple": tuple, "set": list}[d.get("form", "list")](d["o"]), **kw)
    if ty == "bool": return T.BooleanToken(n, **kw)
    a = (d["lo"] / 1000, d["hi"] / 1000)
    if d.get("swap"): a = a[::-1]
    return T.RangedDecimalToken(n, *a, **kw)


def in_text(d):
    """the same token declared in the grammar language; None where it has no such form"""
    ty = d["ty"]
    if ty == "kw": return None
    h = ' : ' + gram.quote(d["h"]) if d["h"] else ""
    if ty == "str": c = "StringToken()"
    elif ty == "int":
        a = (d["hi"], d["lo"]) if d.get("swap") else (d["lo"], d["hi"])
        c = "RangedIntToken(%d, %d%s)" % (*a, ", %d" % d["sug"] if d["sug"] != 10 else "")
    elif ty == "rstr":
        a = (d["hi"], d["lo"]) if d.get("swap") else (d["lo"], d["hi"])
        c = "RangedStringToken(%d, %d)" % a
    elif ty == "alt": c = "AlternativeStringsToken(%s)" % ", ".join(gram.quote(o) for o in d["o"])
    elif ty == "bool": c = "BooleanToken()"
    else:
        a = (d["lo"] / 1000, d["hi"] / 1000)
        c = "RangedDecimalToken(%.3f, %.3f)" % (a[::-1] if d.get("swap") else a)
    return "token X %s;\ng[]: X << call rec($1); >>;" % c


def job(defs, seed=1):
    for d in defs:
        d.setdefault("h", "")
    res = tlc.run("TokensMC", {"node": [], "tok": defs, "root": [], "ctl": tlc.CTL, "maxlen": 0}, workers=1, heap="3g")
    diffs, cover = [], {}
    by = {}
    for r in res.records:
        by.setdefault(r["d"], []).append(r)
    null = T.NullTokenValue

    def bad(aspect, d, w, e, o):
        diffs.append(text.diff(aspect, w, e, o, token=d))

    for k, recs in sorted(by.items()):
        d = defs[k - 1]
        try:
            t = declare(d)
            gt = in_text(d)
            cli = None
            if gt:
                cli = real.Recorder(real.compile_grammar(gt))
                cli.enter_grammar("g")
        except Exception as e:
            bad("declaration", d, "", "accepted", repr(e))
            continue
        random.Random(seed).shuffle(recs)
        c0 = text.make_cli()
        for r in recs:
            w = r["w"]
            cover[d["ty"]] = cover.get(d["ty"], 0) + 1
            want = None if r["v"]["t"] == "null" else real.canon(r["v"])
            try:
                n, comps = real.run(t.complete(w, cli=c0))
                if r["canon"] and sorted(str(c) for c in comps) != sorted(r["c"]):
                    bad("completions", d, w, sorted(r["c"]), sorted(str(c) for c in comps))
                if w:
                    m = real.run(t.match(w, cli=c0))
                    if r["canon"] and m != r["m"]: bad("match", d, w, r["m"], m)
                    v = real.run(t.get_value(w, cli=c0))
                    v = None if v is null else real.canon(real.project(v))
                    if v != want: bad("value", d, w, want, v)
                    cover[d["ty"] + (":value" if want else ":" + r["m"])] = cover.get(d["ty"] + (":value" if want else ":" + r["m"]), 0) + 1
                elif r["h"]:
                    h = str(t.helpstring)
                    if h != r["h"]: bad("hint", d, w, r["h"], h)
                if w and cli:
                    o = real.execute(cli, [w])
                    got = (o.r, [real.canon(x) for x in o.vals], [tuple(real.canon(a) for a in e["a"]) for e in o.log])
                    exp = ("success", [want], [(want,)]) if want else ("failure", [], [])
                    if got != exp: bad("in a grammar", d, w, exp, got)
            except Exception as e:
                bad("exception", d, w, r["m"], repr(e))
            if len(diffs) > 40: break
        if len(diffs) > 60: break
    return {"states": res.states, "transitions": res.transitions, "replayed": len(res.records), "diffs": diffs, "cover": cover,
            "samples": [{"token": defs[r["d"] - 1], "word": r["w"], "match": r["m"], "value": r["v"]} for r in res.records[1:3]]}


DIG = ["-", "0", "1", "2", "5", "9", "a"]

def int_defs(rng, n, full=False):
    out = []
    fixed = [(0, 0), (1, 1), (-1, -1), (0, 9), (1, 9), (1, 10), (0, 100), (1, 100), (5, 25), (10, 15), (99, 101), (95, 105), (-5, 5), (-12, 12),
             (-12, -3), (-100, -98), (-1, 0), (0, 1), (-9, 0), (-128, 127), (0, 255), (100, 120), (109, 191), (2, 19), (20, 21), (-15, -10),
             (8, 120), (-120, -8), (-10, 1), (50, 59), (500, 599), (5, 500), (0, 1000), (12, 12), (-55, -55), (-2, 9), (19, 201)]
    for lo, hi in fixed: out.append((lo, hi, 10))
    for lo, hi in ((1, 65535), (0, 4095), (-32768, 32767), (1, 99999999), (1000, 65535), (-70000, -1000), (12345, 12399), (100000, 2000000)):
        out.append((lo, hi, rng.choice([10, 10, 100])))
    while len(out) < n:
        w = rng.choice([10, 30, 130, 300])
        lo = rng.randint(-w, w)
        hi = lo + rng.choice([0, 1, 3, 8, 9, 10, 11, 30, 99, 150])
        out.append((lo, hi, rng.choice([10, 10, 10, 2, 1, 30, 5])))
    chars = ["-"] + list("0123456789") + ["a"]
    return [dict(ty="int", lo=lo, hi=hi, sug=s, chars=chars if max(abs(lo), abs(hi)) < 1000 else ["-", "0", "1", "2", "9"], maxlen=4 if max(abs(lo), abs(hi)) < 1000 else 6, swap=rng.random() < .15, text=rng.random() < .1, h=rng.choice(["", "", "a hint"]))
            for lo, hi, s in out[:n]]


def int_job(seed, n, part, parts):
    rng = random.Random(seed)
    return job(int_defs(rng, n)[part::parts], seed)


def other_job(seed, kind, n):
    rng = random.Random(seed)
    defs = []
    if kind == "rstr":
        for i in range(n):
            lo = rng.randint(0, 4)
            defs.append(dict(ty="rstr", lo=lo, hi=lo + rng.choice([0, 1, 2]), chars=["a", " ", '"', "\\", "n"], maxlen=6, swap=rng.random() < .2,
                             h=rng.choice(["", "", "hint"])))
    elif kind == "dec":
        for i in range(n):
            a, b = sorted(rng.choice([0, 1000, 500, 1500, -500, -1500, 10000, -10000, 99990, 250, 12000, -2000, 5, -25]) for _ in "ab")
            defs.append(dict(ty="dec", lo=a, hi=b, chars=["-", ".", "0", "1", "2", "5", "9", "x"], maxlen=5, swap=rng.random() < .2, h=""))
    elif kind == "bool":
        defs.append(dict(ty="bool", chars=list("trueflsTRUEFALS"), maxlen=6))
        defs.append(dict(ty="bool", chars=list("truefalsx1"), maxlen=6, h="yes or no"))
    elif kind == "alt":
        pool = ["on", "off", "one", "one two", "o", "ab", "abc", "abcd", "b", "x y", "x z", 'q"t', "q", "back\\n", "back", "10", "100", "-1", "On"]
        for i in range(n):
            o = rng.sample(pool, rng.randint(1, 5))
            chars = sorted(set("".join(text.U.convert_to_cli_string(x) for x in o)) | {"z"})
            defs.append(dict(ty="alt", o=o, chars=chars, maxlen=9, form=rng.choice(["list", "tuple", "args", "list"]), h=rng.choice(["", "pick"])))
    elif kind == "kw":
        pool = ["show", "s", "x y", 'q"t', "a\\b", "10", "-", "tab\t", "#x", "é"]
        for i in range(n):
            s = rng.choice(pool)
            defs.append(dict(ty="kw", s=s, chars=sorted(set(text.U.convert_to_cli_string(s)) | {"z", s[0].upper()}), maxlen=9))
    elif kind == "str":
        defs.append(dict(ty="str", chars=["a", " ", '"', "\\", "n", "-"], maxlen=6))
    return job(defs, seed)
