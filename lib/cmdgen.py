"""C08 (and the classes of C18): command classes whose grammar lives in docstrings."""
import random, io, inspect
from collections import Counter
import gram, tlc, real, profiles
from gram import *
from nessaid_cli import cmd as cmdmod

_cache = {}
_compile = cmdmod.compile_grammar


def memo_compile(text, *a, **k):
    if a or k:
        return _compile(text, *a, **k)
    if text not in _cache:
        if len(_cache) > 400: _cache.clear()
        _cache[text] = _compile(text)
    return _cache[text]


class CmdGen(profiles.Gen):
    """one command class: handlers do_*, shared tokens and grammars"""

    def build_cmd(self):
        r = self.r
        for i in range(self.nrefs):
            par = []
            if self.params and r.random() < .6:
                par = [("$p%d" % (j + 1), r.choice([None, lit(3), lit("d"), lit(0), lit("")])) for j in range(r.randint(0, 2))]
            self.scope = [p for p, _ in par]
            b = self.gen(max(1, self.depth - 1))
            nm = "%s_r%d" % (self.name, i + 1)
            self.sp.gram(nm, par, b)
            self.avail.append((nm, par, b))
        self.handlers = []
        names = ["show", "add", "x", "_under", "B9", "exit2"]
        r.shuffle(names)
        self.prefix = r.choice(["do_", "do_", "cmd_", "on"])
        self.nargs = r.choice([3, 3, 1, 2, 5])
        for i in range(r.choice([1, 2, 2, 3])):
            nm = self.prefix + names[i]
            args = [v for v in "uvw" if r.random() < .6]
            r.shuffle(args)
            self.scope = ["$" + a for a in args]
            body = self.gen(self.depth)
            # most handlers use their arguments: let something be assigned
            if self.scope and not body["post"] and r.random() < .7:
                body["post"] = [assign(r.choice(self.scope), num("pos"))]
            self.handlers.append(dict(name=nm, args=args, body=body, mode=r.choice(["sync", "async", "sync", "raise", "var"])))
        for _, _, b in self.sp.grams:
            self.fix(b, 1, "root")
        for h in self.handlers:
            self.fix(h["body"], 1, "root")
        inner = list(self.sp.grams)
        # what the class stands for
        for h in self.handlers:
            b = dict(h["body"])
            b["pre"] = [assign("$" + a, lit("")) for a in h["args"]] + list(b["pre"])
            b["post"] = list(b["post"]) + [call(h["name"], *[var("$" + a) for a in h["args"]])]
            self.sp.gram(h["name"], [("$arg_%d" % (k + 1), None) for k in range(self.nargs)], b)
        refs = [ref(h["name"], []) for h in self.handlers]
        self.sp.gram(self.name, [], refs[0] if len(refs) == 1 else alt(*refs))
        # how it is written down
        lay = Layout(r if r.random() < .7 else None)
        split = r.randint(0, len(inner)) if r.random() < .5 else None
        toks = gram.tokdefs(self.sp)
        def text(gs):
            out = ""
            for name, par, body in gs:
                ps = "[" + ", ".join(p if q is None else p + " = " + gram.r_arg(q, lay) for p, q in par) + "]" if par else ""
                out += "\n    " + name + ps + lay.sp() + ":" + lay.sp() + gram.r_rule(body, self.sp, lay) + lay.sp() + ";\n"
            return out
        if split is None:
            base, own = "", "\n    ".join([""] + toks) + text(inner)
        else:
            base, own = "\n    ".join([""] + toks) + text(inner[:split]), text(inner[split:])
        if own.strip() == "": own = r.choice([None, ""])
        docs = {h["name"]: "\n        " + gram.r_rule(h["body"], self.sp, lay) + r.choice(["", "\n        ", "  # the end"]) for h in self.handlers}
        self.cls = (base if split is not None else None, own, docs, set(h["name"] for h in self.handlers if split is not None and r.random() < .4))
        return self.sp


def whole(w):
    """w can be typed in the middle of a line: its quotes are closed"""
    if not w.startswith('"'): return '"' not in w and "\\" not in w
    return len(w) > 1 and w.endswith('"') and (len(w) - 1 - len(w[:-1].rstrip("\\"))) % 2 == 0


class Base(cmdmod.NessaidCmd):
    def __init__(self, **kw):
        self.events = []
        self.o, self.e = io.StringIO(), io.StringIO()
        kw.setdefault("loop", real.LOOP)
        super().__init__(stdin=io.StringIO(), stdout=self, stderr=self.e, **kw)
    _buf = ""
    write = real.Recorder.write
    def flush(self): pass
    def get_token_classes(self): return real.TOKEN_CLASSES
    _ev = real.Recorder._ev
    rec, put, arec, ret, aret, bad, abad = [getattr(real.Recorder, f) for f in ("rec", "put", "arec", "ret", "aret", "bad", "abad")]
Base.__doc__ = None


def make_class(g):
    """the command class described by g, as a user would have written it"""
    base, own, docs, inbase = g.cls
    fns = {}
    for h in g.handlers:
        a = ", ".join(["self"] + h["args"])
        ev = "    self._ev(%r, (%s))\n" % (h["name"], "".join(x + ", " for x in h["args"]))
        src = ("async def f(%s):\n" if h["mode"] == "async" else "def f(%s):\n") % a
        if h["mode"] == "async":
            src += "    import asyncio\n    await asyncio.sleep(0)\n"
        src += ev
        if h["mode"] == "raise": src += "    raise RuntimeError('handler')\n"
        if h["mode"] == "var": src += "    return 5\n"
        ns = {}
        exec(src, ns)
        f = ns["f"]
        f.__name__ = h["name"]
        f.__doc__ = docs[h["name"]]
        fns[h["name"]] = f
    parent = Base
    if base is not None:
        body = {k: f for k, f in fns.items() if k in inbase}
        body["__doc__"] = base
        parent = type(g.name + "Base", (Base,), body)
    body = {k: f for k, f in fns.items() if k not in inbase}
    body["__doc__"] = own
    body[g.prefix + "helper"] = lambda self: self._ev("helper", ())        # no docstring: no command
    body[g.prefix + "data"] = 5
    return type(g.name, (parent,), body)


def build(seed, n, prof):
    rng = random.Random(seed)
    c, gens = gram.Corpus(), {}
    for i in range(n):
        p = dict(prof)
        abbr, limit, maxlen = p.pop("abbr", 0), p.pop("limit", 5), p.pop("maxlen", 4)
        for k, v in list(p.items()):
            if isinstance(v, (tuple, list)) and k in ("nkw", "depth", "refs"): p[k] = rng.randint(*v)
        g = CmdGen(rng, "G%d" % i, **p)
        g.build_cmd()
        words = [w for w in g.words(abbr=abbr, limit=limit) if whole(w)]
        free = any(d["ty"] in ("str", "rstr") for d in g.sp.tokens.values())
        g.sp.roots.append({"name": g.name, "words": words, "maxlen": min(3, maxlen) if free else maxlen, "args": []})
        c.add(g.sp)
        gens[g.name] = g
    return c, gens


def job(seed, n, prof, keep=30, args=False):
    cmdmod.compile_grammar = memo_compile
    c, gens = build(seed, n, prof)
    res = tlc.run("Cli", c.json(), workers=1, heap="2g")
    recs = list({(r["g"], tuple(r["w"])): r for r in res.records}.values())
    diffs, cover, m = [], Counter(), 0
    rng = random.Random(seed)
    by = {}
    for r in recs: by.setdefault(r["g"], []).append(r)
    for name, rs in by.items():
        g = gens[name]
        own = [g.cls[0], g.cls[1], g.cls[2]]
        def bad(aspect, line, e, o, x=None):
            diffs.append({"aspect": aspect, "grammar": own, "root": name, "line": line, "expected": e, "observed": o, "extra": x})
        opts = dict(cli_hook_prefix=g.prefix, cli_nargs=g.nargs, disable_default_hooks=True)
        if g.r.random() < .3: opts["use_base_grammar"] = False
        try:
            cls = make_class(g)
            cli = cls(**opts)
        except Exception as e:
            bad("class", [], "accepted", repr(e))
            continue
        rng.shuffle(rs)
        for r in rs:
            m += 1
            line = " ".join(r["w"])
            cli.events.clear()
            try:
                code = cli.exec_args(*r["w"]) if args else real.run(cli.exec_line(line))
            except (Exception, real.Hang) as e:
                code = repr(e)
            want = 0 if r["r"] == "success" else 12
            cover["line:" + r["r"]] += 1
            cover["status 0" if want == 0 else "status not 0"] += 1
            if (code == 0) != (want == 0): bad("status", line, want, code, cli.e.getvalue()[-500:])
            e, o = real.canon_log(r.get("log", [])), real.canon_log(cli.events)
            cover["handlers"] += sum(1 for x in r.get("log", []) if x["f"].startswith(g.prefix))
            cover["handler args"] += sum(len(x["a"]) for x in r.get("log", []) if x["f"].startswith(g.prefix))
            if e != o: bad("calls", line, e, o, cli.e.getvalue()[-500:])
            cli.e.seek(0); cli.e.truncate()
            if len(diffs) >= keep: break
    cover["classes"] = len(by)
    smp = [{"class": [g.cls[1], g.cls[2]], "line": r["w"], "calls": r.get("log")} for r in recs if r.get("log") for g in [gens[r["g"]]]][:1]
    return {"states": res.states, "transitions": res.transitions, "replayed": m, "diffs": diffs, "cover": dict(cover), "samples": smp}


if __name__ == "__main__":
    import sys, json
    r = job(int(sys.argv[1]), int(sys.argv[2]), json.loads(sys.argv[3]))
    print(r["states"], r["cover"], len(r["diffs"]))
    for d in sorted(r["diffs"], key=lambda d: len(str(d)))[:3]: print(json.dumps(d, indent=1)[:2500])
