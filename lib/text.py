"""C09, C10: lines and strings through the tokenizer and the quoting helpers."""
import io, random
import tlc, real
from nessaid_cli.tokenizer.tokenizer import NessaidCliTokenizer, TokenizerException
from nessaid_cli.tokenizer import tokenizer as tokmod
from nessaid_cli import utils as U
from nessaid_cli.cli import NessaidCli

CTL = tlc.CTL


def diff(aspect, line, e, o, **kw):
    return dict(aspect=aspect, grammar=None, line=line, expected=e, observed=o, **kw)


def words_of(toks):
    return [[str(t), bool(getattr(t, "quoted", False)), bool(getattr(t, "quote_incomplete", False))] for t in toks]


class Cli(NessaidCli):
    def get_token_classes(self):
        return real.TOKEN_CLASSES


def make_cli(text="g[]: x;", name="g", cls=Cli, **kw):
    err = io.StringIO()
    c = cls(real.compile_grammar(text), loop=real.LOOP, stdin=io.StringIO(), stdout=io.StringIO(), stderr=err, **kw)
    return c


def lex_job(alphabet, maxlen, seed=1, order="both"):
    res = tlc.run("LexMC", {"node": [], "tok": [], "root": [], "ctl": CTL, "alphabet": alphabet, "maxlen": maxlen},
                  workers=1, heap="2g")
    recs = res.records
    rng = random.Random(seed)
    rng.shuffle(recs)                   # one instance sees the lines in a random order
    shared, diffs, cover = NessaidCliTokenizer(), [], {"accepted": 0, "rejected": 0, "incomplete": 0, "quoted": 0}
    cli = make_cli()
    for k, r in enumerate(recs):
        want = [[w["s"], w["q"], w["i"]] for w in r["w"]] if r["ok"] else "rejected"
        cover["accepted" if r["ok"] else "rejected"] += 1
        cover["quoted"] += any(w["q"] for w in r["w"])
        cover["incomplete"] += any(w["i"] for w in r["w"])
        try:
            got = words_of(shared.parse(r["t"]))
        except TokenizerException:
            got = "rejected"
        except Exception as e:
            got = repr(e)
        if got != want:
            diffs.append(diff("tokenizer", r["t"], want, got))
        # the way lines of a session and of exec_line are split
        try:
            ok, err, toks = cli.tokenize(r["t"])
            got = words_of(toks) if ok else ("rejected" if toks == [] else "not rejected: %r" % (toks,))
        except Exception as e:
            got = repr(e)
        if r["t"] == "\n":
            want = []                   # an empty line with its line end
        if got != want:
            diffs.append(diff("split", r["t"], want, got))
        if len(diffs) > 40:
            break
    # the function of the module, on a sample (it builds a new tokenizer each time)
    for r in rng.sample(recs, min(60, len(recs))):
        want = [w["s"] for w in r["w"]] if r["ok"] else []
        try:
            import contextlib
            with contextlib.redirect_stderr(io.StringIO()):
                got = [str(t) for t in tokmod.tokenize(r["t"])]
        except Exception as e:
            got = repr(e)
        if got != want:
            diffs.append(diff("tokenize()", r["t"], want, got))
    return {"states": res.states, "transitions": res.transitions, "replayed": len(recs), "diffs": diffs, "cover": cover,
            "samples": [{"line": r["t"], "words": [w["s"] for w in r["w"]]} for r in recs[:2]]}


def grammar_literal(s):
    """a string literal of the grammar language for the string s"""
    return '"' + "".join("\\" + {"\n": "n", "\0": "0", "\r": "r", "\t": "t", "\b": "b", "\v": "v", "\a": "a",
                                 '"': '"', "\\": "\\"}[c] if c in '\n\0\r\t\b\v\a"\\' else c for c in s) + '"'


def trip_job(alphabet, maxlen, seed=1, tokens=True, frac=1.0, ingrammar=300):
    res = tlc.run("RoundTrip", {"node": [], "tok": [], "root": [], "ctl": CTL, "alphabet": alphabet, "maxlen": maxlen},
                  workers=1, heap="2g")
    recs, diffs = res.records, []
    rng = random.Random(seed)
    rng.shuffle(recs)
    toker, cli = NessaidCliTokenizer(), make_cli()
    T = real.T
    cover = {"strings": len(recs), "quoted": sum(r["q"] for r in recs), "tokens": 0}

    def check(aspect, s, e, f):
        try:
            o = f()
        except Exception as x:
            o = repr(x)
        if o != e:
            diffs.append(diff(aspect, s, e, o))
        return o

    for r in recs:
        s, c = r["s"], r["c"]
        check("quote", s, c, lambda: str(U.convert_to_cli_string(s)))
        check("one word", s, [[c, r["q"], False]], lambda: words_of(toker.parse(c)))
        if r["q"]:                      # the plain form of a string has no escapes to undo
            check("read back", s, s, lambda: str(U.convert_to_python_string(U.convert_to_cli_string(s))))
            check("read back word", s, s, lambda: str(U.convert_to_python_string(toker.parse(c)[0])))
            check("read back word, cached", s, s, lambda: str(U.convert_to_python_string(toker.parse(c)[0], cli=cli)))
        else:
            check("read back plain", s, s, lambda: str(U.convert_to_python_string(s, cli=cli)))
        if tokens and rng.random() < frac:
            cover["tokens"] += 1
            k, a = T.CliToken(s), T.AlternativeStringsToken("A", [s, s + "~"])
            for nm, t in (("keyword", k), ("choice", a)):
                check(nm + " matches", s, "success", lambda: real.run(t.match(c, cli=cli)))
                check(nm + " value", s, s, lambda: str(real.run(t.get_value(c, cli=cli))))
                check(nm + " offers itself", s, True, lambda: c in [str(x) for x in real.run(t.complete("", cli=cli))[1]])
            check("string token", s, s, lambda: str(real.run(T.StringToken("S").get_value(c, cli=cli))))
        if len(diffs) > 40:
            break
    if tokens:
        diffs += in_grammar([recs[i] for i in sorted(rng.sample(range(len(recs)), min(len(recs), ingrammar)))], cover)
    return {"states": res.states, "transitions": res.transitions, "replayed": len(recs), "diffs": diffs, "cover": cover,
            "samples": [{"string": r["s"], "word": r["c"]} for r in recs[:2]]}


def in_grammar(recs, cover, batch=12):
    """the same strings as keywords, choices and free text of a grammar: typed as offered, delivered as they are"""
    diffs = []
    for at in range(0, len(recs), batch):
        part = recs[at:at + batch]
        lits = [grammar_literal(r["s"]) for r in part]
        # "S" and "C" head the other forms; the bare keywords must not collide with them
        text = "token STR StringToken();\ntoken CHO AlternativeStringsToken(%s);\ng[]:\n" % ", ".join(lits)
        text += "\n| ".join("(\"K\" %s << call rec($2, %s); >>)" % (x, x) for x in lits)
        text += "\n| (\"S\" STR << $v = $2; call rec($v); call put($2); >>)"
        text += "\n| (\"C\" CHO << $v = $2; $w = $v; call rec($w); >>);"
        try:
            cli = real.Recorder(real.compile_grammar(text))
            cli.enter_grammar("g")
        except Exception as e:
            diffs.append(diff("compile", [r["s"] for r in part], "compiles", repr(e)))
            continue
        offered = real.suggest(cli, ["K"], True).nx
        want = sorted(set(r["c"] for r in part))
        if offered != want:
            diffs.append(diff("offered keywords", [r["s"] for r in part], want, offered))
        offered = [x for x in real.suggest(cli, ["C"], True).nx]
        if offered != want:
            diffs.append(diff("offered choices", [r["s"] for r in part], want, offered))
        S = lambda v: {"t": "str", "s": v}
        for r in part:
            for head, log in (("K", [{"f": "rec", "a": [S(r["s"]), S(r["s"])]}]),
                              ("S", [{"f": "rec", "a": [S(r["s"])]}, {"f": "put", "a": [S(r["s"])]}]),
                              ("C", [{"f": "rec", "a": [S(r["s"])]}])):
                o = real.execute(cli, [head, r["c"]])
                cover["lines"] = cover.get("lines", 0) + 1
                if o.r != "success" or o.log != log:
                    diffs.append(diff("value in action", [head, r["c"]], log, [o.r, o.log]))
                elif o.vals != [S(head), S(r["s"])]:
                    diffs.append(diff("matched value", [head, r["c"]], r["s"], o.vals))
    return diffs
