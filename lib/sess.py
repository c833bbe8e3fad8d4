"""Sessions: random command classes, files and user lines -> TLC (Session.tla)
-> the real loop, fed key by key."""
import asyncio, io, json, os, random, shutil, sys, tempfile
from collections import Counter
import gram, tlc, real
from gram import *
from nessaid_cli import cmd as cmdmod
from nessaid_cli.cli import CliAlreadyRunning
from nessaid_readline import async_readline as arl
from cmdgen import memo_compile

KEY = {"int": "\x03", "eof": "\x04"}


# ------------------------------------------------------------- configurations
def op(o, **kw):
    d = dict(o=o, s="", k=0, mp=False, p="", direct=False, echo=True, show=True)
    d.update(kw)
    return d


class Conf:
    """one session configuration"""

    def __init__(self, rng, kind="mixed", depth=3, nlines=7, runs=1):
        self.r = r = rng
        self.kind = kind
        nctx = {"plain": 1, "files": 1, "ask": 1, "fault": 1, "life": 1}.get(kind) or r.choice([2, 3, 3])
        if kind == "fault" and r.random() < .5: nctx = 2
        if kind == "life" and r.random() < .4: nctx = 2
        self.files = []
        self.ctx = []
        self.depth, self.runs = depth, runs
        names = ["Main", "Sub", "Deep"][:nctx]
        self.c = gram.Corpus()
        nf = {"files": 3, "mixed": 2, "ask": 2, "ctx": 1, "plain": 1, "fault": 1, "life": 1}[kind]
        self.fnames = ["f%d" % (i + 1) for i in range(nf)]
        for i, n in enumerate(names):
            self.ctx.append(self.make_ctx(i, n, nctx))
        pool = self.pool()
        for f in self.fnames:
            n = r.choice([0, 1, 1, 2, 2, 3])
            idx = self.fnames.index(f)
            def loads(l):
                w = l.split()
                return [o["s"] if o["s"] != "$" else " ".join(w[1:]) for c in self.ctx for k, a, ops in c["_words"] if w and k.startswith(w[0].strip("\\ ")) for o in ops if o["o"] == "load"]
            ok = [l for l in pool if all(x not in self.fnames[:idx + 1] for x in loads(l))]
            lines = [r.choice(ok or ["mark f"]) for _ in range(n)]
            if r.random() < .2: lines = [l + r.choice(["  ", "\t"]) for l in lines]
            self.files.append({"name": f, "lines": lines, "nl": r.random() < .8 or lines[-1:] == [""]})
        self.lines = self.pick(pool, nlines)
        self.answers = r.sample(["yes", "mark a", "", "#x", "x\\", ' "p q" '], 2)
        self.start = r.choice(["", "", self.fnames[0], "nofile"]) if kind in ("files", "mixed", "ask", "life") else ""
        self.intro = r.choice(["", "Hello"])

    def make_ctx(self, i, name, n):
        r, kind = self.r, self.kind
        cmds = []
        asks = lambda: op("ask", p=r.choice(["q> ", "", "name: "]), direct=r.random() < .25, echo=r.random() < .7, show=r.random() < .7)
        mk = lambda s="$": op("mark", s=s)
        def some_ops():
            """a handler doing several things"""
            o = []
            for _ in range(r.randint(1, 4)):
                o.append(r.choice(choices)())
            return o
        choices = [lambda: mk("m%d" % r.randint(1, 9)), lambda: op("say", s=r.choice(["hi", "two words"]))]
        cmds.append(("mark", "str", [mk()]))
        if kind in ("files", "mixed", "ask", "ctx", "life", "fault"):
            ld = lambda: op("load", s=r.choice(self.fnames + (["nofile"] if r.random() < .2 else [])))
            choices.append(ld)
            if r.random() < .8: cmds.append(("load", "str", [op("load", s="$")]))
            cmds.append(("more", "", [ld(), mk("after")]))
        if kind in ("ask", "mixed"):
            choices.append(asks); choices.append(asks)
            cmds.append(("ask", "", [asks(), mk("then")]))
            cmds.append(("twice", "optstr", [asks(), mk(), asks()]))
        if i + 1 < n or kind == "ctx" and n > 1 and r.random() < .3:
            for k in range(i + 1, n):
                if k == i + 1 or r.random() < .5:
                    en = op("enter", k=k + 1, mp=r.random() < .55)
                    choices.append(lambda en=en: en)
                    cmds.append((["sub", "deep"][k - 1], r.choice(["", "optstr"]), [en, mk("entered")] if r.random() < .5 else [mk("opening"), en]))
        if i: choices.append(lambda: op("up"))
        choices.append(lambda: op("exit"))
        cmds.append(("leave", "", [op("exit")] if r.random() < .6 else [op("exit"), mk("bye")]))
        if i and r.random() < .5: cmds.append(("drop", "", [op("up"), op("exit")]))
        if kind in ("fault", "mixed", "life", "ctx"):
            bm = lambda: op("boom")
            choices.append(bm)
            cmds.append(("boom", "optstr", [mk("before"), op("boom"), mk("never")]))
        if kind in ("life", "mixed", "ctx"):
            cmds.append(("again", "", [op("again")]))
        cmds.append(("many", "", some_ops()))
        if r.random() < .4: cmds.append(("batch", "str", some_ops()))
        r.shuffle(cmds)
        keep = cmds[:r.randint(3, 5)]
        need = {"plain": ["mark"], "files": ["more", "mark"], "ask": ["ask"], "ctx": ["sub", "deep"], "fault": ["boom"], "life": ["leave", "again"], "mixed": []}[kind]
        for q in cmds:
            if q not in keep and (q[0] in need or q[0] == "leave" and i): keep.append(q)
        sp = gram.Spec(name)
        handlers = []
        for kwd, pat, ops in keep:
            self.tag = kwd
            k = tok(sp.kwtok(kwd))
            S = lambda: tok(("STR",))
            sp.tokens.setdefault(("STR",), dict(ty="str", h=""))
            if pat == "": body = k
            elif pat == "str": body = seq(k, S())
            else: body = seq(k, opt(S(), post=[]))
            x = []
            if kind == "fault" or r.random() < .2:
                # actions around the words which may fail
                for _ in range(r.choice([1, 2])):
                    f = r.choice(["rec", "bad", "abad", "rec"])
                    x.append(call(f, lit(kwd + f)))
            if pat: (body["c"][1] if pat == "str" else body["c"][1]["c"][0])["post"] = [assign("$w", num(2 if pat == "str" else 1))]
            if x:
                if r.random() < .5: body["post"] = x
                else: k["post"] = x
            handlers.append(dict(name="do_" + kwd, body=body, args=["w"] if pat else [], ops=ops, asy=any(o["o"] in ("ask", "enter") for o in ops) or r.random() < .4))
        g = []
        docs = {}
        for h in handlers:
            docs[h["name"]] = "\n        " + gram.r_rule(h["body"], sp, Layout()) + "\n        "
            b = dict(h["body"])
            b["pre"] = [assign("$" + a, lit("")) for a in h["args"]] + list(b["pre"])
            b["post"] = list(b["post"]) + [call(h["name"], *[var("$" + a) for a in h["args"]])]
            sp.gram(h["name"], [("$arg_%d" % (j + 1), None) for j in range(3)], b)
        refs = [ref(h["name"], []) for h in handlers]
        sp.gram(name, [], refs[0] if len(refs) == 1 else alt(*refs))
        sp.roots.append({"name": name, "words": [], "maxlen": 0, "args": []})
        self.c.add(sp)
        pre = [o for o in ([mk("pre")] if r.random() < .3 else [])]
        post = [o for o in ([mk("post")] if r.random() < .3 else [])]
        if kind in ("mixed", "files", "life") and r.random() < .3: pre.append(op("load", s=r.choice(self.fnames)))
        if kind in ("mixed", "ask") and r.random() < .3: r.choice([pre, post]).append(asks())
        if i + 1 < n and r.random() < .25: post.append(op("enter", k=i + 2, mp=r.random() < .5))
        if kind in ("fault", "life", "mixed") and r.random() < .12: r.choice([pre, post]).append(op("boom"))
        if r.random() < .08: r.choice([pre, post]).append(op("exit"))
        words = [(h["name"][3:], bool(h["args"]), h["ops"]) for h in handlers]
        return dict(name=name, root=i + 1, prompt=r.choice([name.lower() + "# ", "> ", ""]), pre=pre, post=post, eofexit=r.random() < .5,
                    cmd=[dict(f=h["name"], ops=h["ops"]) for h in handlers], _h=handlers, _docs=docs, _words=words,
                    _usepar=i > 0 and r.random() < .5)

    def pool(self):
        """lines worth typing"""
        r = self.r
        out = []
        for c in self.ctx:
            for kwd, arg, ops in c["_words"]:
                a = r.choice(["a", '"b c"', "7"])
                if kwd == "load": a = r.choice(self.fnames + ["nofile"])
                if arg: out += [kwd + " " + a]
                out += [kwd] if not arg or r.random() < .6 else []
                if r.random() < .3: out.append(kwd[:3] + (" " + a if arg else ""))
        out = sorted(set(out))
        full = list(out)
        for l in full:
            x = r.random()
            if x < .25:
                k = r.randint(0, len(l))
                out += [l[:k] + "\\" + r.choice(["", "", "  "]), l[k:]]
            elif x < .35: out.append("# " + l + r.choice(["", "\\"]))
            elif x < .4: out.append("  " + l + " ")
        out += r.sample(["", "   ", "zz", 'a"b', "mark", "#", " #c", "\\", 'mark "p', "mark a#b", "mark a\\b", "\\ ", "mark x\\\\"], 4)
        return [l for l in out]

    def pick(self, pool, n):
        r = self.r
        good = [l for l in pool if any(l.split()[:1] == [w[0]] for c in self.ctx for w in c["_words"])]
        want = []
        for k in {"plain": [], "files": ["more", "load"], "ask": ["ask", "twice"], "ctx": ["sub", "deep", "leave"], "fault": ["boom"], "life": ["leave", "again"], "mixed": ["sub", "ask"]}[self.kind]:
            want += [l for l in good if l.split()[0] == k][:1]
        if self.kind in ("plain", "files") or r.random() < .3:
            c = [l for l in pool if l.rstrip().endswith("\\")]
            if c: want.append(r.choice(c))
        rest = [l for l in pool if l not in want]
        r.shuffle(rest)
        want = list(dict.fromkeys(want))
        return (want + rest)[:n]

    def json(self):
        d = self.c.json()
        d.update(ctx=[{k: v for k, v in c.items() if not k.startswith("_")} for c in self.ctx], file=[{"name": f["name"], "lines": f["lines"]} for f in self.files],
                 lines=self.lines, answers=self.answers, start=self.start, intro=self.intro, depth=self.depth, runs=self.runs)
        return d


# ------------------------------------------------------------------ real code
class Trace:
    """what the user will do and what was seen"""

    def __init__(self, steps):
        self.steps, self.at, self.log, self.editing, self.keys = steps, 0, [], 0, []
        self.frozen = asyncio.Event()
        self.stray = None

    def ev(self, **e): self.log.append(e)

    def out(self, s):
        s = s.replace("\a", "")
        if not s or self.editing: return
        if self.log and self.log[-1]["e"] == "out": self.log[-1]["t"] += s
        else: self.ev(e="out", t=s)

    def err(self):
        if not (self.log and self.log[-1]["e"] == "err"): self.ev(e="err")

    async def key(self):
        if not self.keys:
            if self.at >= len(self.steps) or self.steps[self.at]["k"] == "run":
                self.frozen.set()
                await asyncio.Event().wait()
            s = self.steps[self.at]
            self.at += 1
            k = s["k"]
            if k == "recallint": self.keys = ["\t", KEY["int"]]
            elif k == "recall": self.keys = list(s["t"][:len(s["t"]) // 2]) + ["\t"] + list(s["t"][len(s["t"]) // 2:]) + ["\n"]
            elif k == "line": self.keys = list(s["t"]) + ["\n"]
            else: self.keys = ([] if len(self.steps) % 2 else list("mark z")) + [KEY[k]]
        return self.keys.pop(0)


NOW = None          # the trace being replayed


async def _readchar(self): return await NOW.key()

_readline, _input = arl.NessaidAsyncReadline.readline, arl.NessaidAsyncReadline.input

async def _rl(self, prompt=None):
    NOW.ev(e="read", p=prompt or "")
    NOW.editing += 1
    try: return await _readline(self, prompt)
    finally: NOW.editing -= 1

async def _in(self, prompt=None, mask_input=False):
    NOW.ev(e="ask", p=prompt or "", m=bool(mask_input))
    NOW.editing += 1
    try: return await _input(self, prompt, mask_input=mask_input)
    finally: NOW.editing -= 1


def patch():
    arl.NessaidAsyncReadline.readchar = _readchar
    arl.NessaidAsyncReadline.readline = _rl
    arl.NessaidAsyncReadline.input = _in
    cmdmod.compile_grammar = memo_compile


class W:
    def __init__(self, err): self.iserr = err
    def write(self, s):
        if self.iserr:
            if s: NOW.err()
        else: NOW.out(s)
        return len(s)
    def flush(self): pass


class Shell(cmdmod.NessaidCmd):
    conf = None
    idx = 0
    def get_token_classes(self): return real.TOKEN_CLASSES
    @property
    def me(self): return self.conf.ctx[self.idx]
    def _f(self, f, a): NOW.ev(e="mark", c=self.me["name"], s=f + ":" + (str(a[0]) if a else ""))
    def rec(self, *a): self._f("rec", a)
    def bad(self, *a):
        self._f("bad", a)
        raise RuntimeError("bad")
    async def abad(self, *a):
        self._f("abad", a)
        await asyncio.sleep(0)
        raise ValueError("abad")
    async def preloop(self): await self.ops(self.me["pre"], "")
    async def postintro(self): await self.ops(self.me["post"], "")
    async def on_exit(self): NOW.ev(e="hook", n="exit", c=self.me["name"])
    async def handle_keyboard_interrupt(self): NOW.ev(e="hook", n="interrupt", c=self.me["name"])
    async def handle_eof(self):
        NOW.ev(e="hook", n="eof", c=self.me["name"])
        if self.me["eofexit"]: self.exit_loop()

    def op(self, o, s):
        k = o["o"]
        if k == "mark": NOW.ev(e="mark", c=self.me["name"], s=s)
        elif k == "say": self.print(s)
        elif k == "load": self.add_file_to_execute(os.path.join(self.conf.dir, s))
        elif k == "exit": self.exit_loop()
        elif k == "up":
            if self.parent: self.parent.exit_loop()
        elif k == "boom": raise RuntimeError("boom")
        elif k == "again":
            try:
                self.run()
                NOW.ev(e="started twice")
            except CliAlreadyRunning:
                NOW.ev(e="refused")
        else: return False
        return True

    async def ops(self, ops, w):
        for o in ops:
            s = w if o["s"] == "$" else o["s"]
            if self.op(o, s): continue
            if o["o"] == "enter":
                k = self.conf.classes[o["k"] - 1]
                await self.enter_context(k, prompt=k.conf.ctx[k.idx]["prompt"], match_parent_grammar=o["mp"], use_parent_grammar=k.conf.ctx[k.idx]["_usepar"])
            else:
                a = await self.input(o["p"], show_char=o["show"], show_prompt_for_file_lines=o["echo"], from_stdin=o["direct"])
                NOW.ev(e="answer", s=a)
Shell.__doc__ = None


def make_classes(conf):
    conf.classes = []
    for i, c in enumerate(conf.ctx):
        body = {"conf": conf, "idx": i, "__doc__": None if c["_usepar"] else "token STR StringToken();\n"}
        for h in c["_h"]:
            if h["asy"]:
                if h["args"]:
                    async def f(self, w, h=h): await self.ops(h["ops"], w)
                else:
                    async def f(self, h=h): await self.ops(h["ops"], "")
            elif h["args"]:
                def f(self, w, h=h):
                    for o in h["ops"]: self.op(o, w if o["s"] == "$" else o["s"])
            else:
                def f(self, h=h):
                    for o in h["ops"]: self.op(o, o["s"])
            # the handler's own arguments only
            src = f
            ns = {"src": src}
            if h["asy"]: exec("async def g(self%s):\n    return await src(self%s)" % ((", w", ", w") if h["args"] else ("", "")), ns)
            else: exec("def g(self%s):\n    return src(self%s)" % ((", w", ", w") if h["args"] else ("", "")), ns)
            g = ns["g"]
            g.__name__, g.__doc__ = h["name"], c["_docs"][h["name"]]
            body[h["name"]] = g
        conf.classes.append(type(c["name"], (Shell,), body))


async def drive(conf, tr, how):
    """one session: `how' is the way it is started"""
    cls = conf.classes[0]
    kw = {}
    if conf.start: kw["filename"] = os.path.join(conf.dir, conf.start)
    cli = cls(loop=real.LOOP, prompt=conf.ctx[0]["prompt"], stdin=io.StringIO(), stdout=W(False), stderr=W(True), disable_default_hooks=True, **kw)
    me = asyncio.current_task()
    while tr.at < len(tr.steps):
        if tr.steps[tr.at]["k"] != "run":
            tr.stray = "the session ended before step %d" % tr.at
            break
        tr.at += 1
        before = asyncio.all_tasks()
        if how == "run":
            cli.run(intro=conf.intro or None)
            task = (asyncio.all_tasks() - before).pop()
        else:
            task = asyncio.ensure_future(cli.cmdloop(intro=conf.intro or None))
        fr = asyncio.ensure_future(tr.frozen.wait())
        await asyncio.wait({task, fr}, return_when=asyncio.FIRST_COMPLETED)
        if not task.done():
            fr.cancel()
            n = len(tr.log)
            running = cli.running
            task.cancel()
            await asyncio.gather(task, return_exceptions=True)
            del tr.log[n:]
            return running, cli
        fr.cancel()
        tr.ev(e="end", how="exception" if task.exception() else "ok")
        tr.why = repr(task.exception())
    return cli.running, cli


def observe(conf, rec, how):
    global NOW
    tr = Trace(rec["inp"])
    tr.why = None
    NOW = tr
    on = None
    try:
        on, cli = real.run(drive(conf, tr, how))
    except (Exception, real.Hang) as e:
        tr.stray = repr(e)
    for t in asyncio.all_tasks(real.LOOP): t.cancel()
    return tr, on


def norm(log):
    return [tuple(sorted((k, v) for k, v in e.items())) for e in log]


def replay(conf, recs, rng, keep=10):
    patch()
    make_classes(conf)
    conf.dir = tempfile.mkdtemp(prefix="sess_")
    diffs, cover = [], Counter()
    try:
        for f in conf.files:
            with open(os.path.join(conf.dir, f["name"]), "w", newline="") as fd:
                fd.write("\n".join(f["lines"]) + ("\n" if f["nl"] and f["lines"] else ""))
        for rec in recs:
            how = rng.choice(["run", "cmdloop"])
            tr, on = observe(conf, rec, how)
            for x in rec["log"]:
                if x["e"] == "ghost": cover[x["n"]] += 1
            rec["log"] = [x for x in rec["log"] if x["e"] != "ghost"]
            e, o = norm(rec["log"]), norm(tr.log)
            if e != o or tr.stray or tr.at != len(tr.steps) or on != rec["on"]:
                k = next((i for i in range(min(len(e), len(o))) if e[i] != o[i]), min(len(e), len(o)))
                diffs.append(dict(aspect="session", grammar=describe(conf), line=rec["inp"], expected=rec["log"], observed=tr.log,
                                  extra=dict(at=k, stray=tr.stray, used=tr.at, running=[rec["on"], on], how=how, why=tr.why)))
                if len(diffs) >= keep: break
            for x in rec["log"]: cover[x["e"] + (":" + x["n"] if x["e"] == "hook" else "")] += 1
            for x in rec["inp"]: cover["user:" + x["k"]] += 1
            if any(x["e"] == "hook" and x["n"] == "exit" and x["c"] != "Main" for x in rec["log"]): cover["contexts left"] += 1
    finally:
        shutil.rmtree(conf.dir, ignore_errors=True)
    return diffs, cover


def describe(conf):
    return [dict(name=c["name"], prompt=c["prompt"], docs=c["_docs"], ops={h["name"]: h["ops"] for h in c["_h"]}, pre=c["pre"], post=c["post"]) for c in conf.ctx] + \
           [dict(files=conf.files, start=conf.start)]


def one(seed, kind, depth, nlines, runs, sim=0, simdepth=0, sample=None):
    rng = random.Random(seed)
    conf = Conf(rng, kind, depth, nlines, runs)
    if sim:
        conf.depth = simdepth
        res = tlc.run("Session", conf.json(), workers=1, heap="2g", simulate=sim, depth=60 * simdepth, seed=seed)
    else:
        res = tlc.run("Session", conf.json(), workers=1, heap="2g")
    recs, seen = [], set()
    for r in res.records:
        k = json.dumps(r["inp"])
        if k not in seen:
            seen.add(k)
            recs.append(r)
    if sample and len(recs) > sample: recs = rng.sample(recs, sample)
    d, cover = replay(conf, recs, rng)
    return res, recs, d, cover, conf


def job(seed, n, kind, depth=3, nlines=7, runs=1, sim=0, simdepth=12, sample=400):
    out = dict(states=0, transitions=0, replayed=0, diffs=[], cover=Counter(), samples=[])
    for i in range(n):
        res, recs, d, cover, conf = one(seed * 1000 + i, kind, depth, nlines, runs, sim, simdepth, sample)
        out["states"] += res.states
        out["transitions"] += res.transitions
        out["replayed"] += len(recs)
        out["diffs"] += d
        out["cover"].update(cover)
        out.setdefault("actions", Counter()).update(res.actions)
        if recs and not out["samples"]: out["samples"].append({"user": [s["k"] + ":" + s["t"] for s in recs[-1]["inp"]], "seen": recs[-1]["log"][:12]})
        if len(out["diffs"]) > 20: break
    out["cover"] = dict(out["cover"])
    return out


if __name__ == "__main__":
    import time
    t = time.time()
    r = job(int(sys.argv[1]), int(sys.argv[2]), sys.argv[3], **json.loads(sys.argv[4] if len(sys.argv) > 4 else "{}"))
    print("%.1fs" % (time.time() - t), {k: r[k] for k in ("states", "replayed", "cover", "actions")}, len(r["diffs"]))
    for d in sorted(r["diffs"], key=lambda d: len(d["line"]))[:2]:
        print("USER", [(s["k"], s["t"]) for s in d["line"]])
        for i in range(max(len(d["expected"]), len(d["observed"]))):
            e = d["expected"][i] if i < len(d["expected"]) else None
            o = d["observed"][i] if i < len(d["observed"]) else None
            print("  " if e == o else "!!", e, o if e != o else "")
        print(d["extra"])
        print(json.dumps(d["grammar"], indent=0)[:3500])
