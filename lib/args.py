"""C18: argument lists and lines executed from a program (Args.tla)."""
import io, random, itertools
from collections import Counter
import tlc, real, text, cmdgen
from nessaid_cli.tokenizer.tokenizer import NessaidCliTokenizer
from nessaid_cli import cmd as cmdmod


class Go(cmdmod.NessaidCmd):
    """
    token W StringToken();
    """
    last = None

    def __init__(self, **kw):
        Go.last = self
        self.got = []
        kw.setdefault("loop", real.LOOP)
        super().__init__(stdin=io.StringIO(), stdout=io.StringIO(), stderr=io.StringIO(), **kw)

    def get_token_classes(self):
        return real.TOKEN_CLASSES

    def do_go(self, words):
        """
        << $words = list(); >>
        "go" { (W << append($words, $1); >>) * (1:2) }
        """
        self.got.append(list(words))


def closed(s):
    """s, which has a quote at either end, is one word"""
    try: return [str(t) for t in NessaidCliTokenizer().parse(s)] == [s]
    except Exception: return False


def pool(rng, n, alphabet):
    out = {"go"}
    chars = list(alphabet)
    while len(out) < n:
        k = rng.choice([1, 1, 2, 2, 3, 4])
        s = "".join(rng.choice(chars) for _ in range(k))
        if rng.random() < .1: s = '"' + s + '"'
        if s.startswith('"') and s.endswith('"') and not (len(s) > 1 and closed(s)): continue
        out.add(s)
    return sorted(out, key=lambda s: (s != "go", s))


def job(alphabet, n, maxlen, seed=1):
    rng = random.Random(seed)
    p = pool(rng, n, alphabet)
    res = tlc.run("Args", {"node": [], "tok": [], "root": [], "ctl": tlc.CTL, "pool": p, "maxlen": maxlen, "most": 2},
                  workers=1, heap="2g")
    recs = {tuple(r["args"]): r for r in res.records}
    cmdmod.compile_grammar = cmdgen.memo_compile
    shared, diffs, cover = Go(prompt="# "), [], Counter()
    order = list(recs.values())
    rng.shuffle(order)
    for k, r in enumerate(order):
        a = r["args"]
        for how in ("args", "class") if k % 16 == 0 else ("args",):
            try:
                if how == "args":
                    shared.got = []
                    code, got = shared.exec_args(*a), shared.got
                else:
                    code = Go.execute_args(*a)
                    got = Go.last.got
            except Exception as e:
                code, got = repr(e), []
            want = [r["got"]] if r["r"] == "success" else []
            cover["%s:%s" % (how, "run" if want else "refused")] += 1
            cover["quoting"] += any(c in x for x in r["got"] for c in ' "\\\t\n')
            if (code == 0) != bool(want) or got != want:
                diffs.append(text.diff("arguments/" + how, a, [r["r"], want], [code, got]))
        if k % 16 == 1:
            # a line, executed by the class itself
            toks = [x for x in a if x.strip() and not any(c in x for c in ' \t\n"\\')]
            e = recs.get(tuple(toks))
            if e:
                try: code = real.run(Go.execute_line(" ".join(toks))); got = Go.last.got
                except Exception as x: code, got = repr(x), []
                want = [e["got"]] if e["r"] == "success" else []
                cover["line:%s" % ("run" if want else "refused")] += 1
                if (code == 0) != bool(want) or got != want:
                    diffs.append(text.diff("execute_line", toks, want, [code, got]))
        if len(diffs) > 40: break
    return {"states": res.states, "transitions": res.transitions, "replayed": len(recs), "diffs": diffs, "cover": dict(cover),
            "samples": [{"args": r["args"], "words": r["got"]} for r in order if r["got"]][:2]}


if __name__ == "__main__":
    import sys, json
    r = job(sys.argv[1].encode().decode("unicode_escape"), int(sys.argv[2]), int(sys.argv[3]))
    print(r["states"], r["cover"], len(r["diffs"]))
    for d in sorted(r["diffs"], key=lambda d: len(str(d["line"])))[:12]: print(d["line"], d["expected"], d["observed"])
