"""Random grammars for the checks of the grammar machine."""
from gram import *

VOCAB = {
    "letters": ["a", "b", "c", "d"],
    "abbrev": ["ab", "abc", "abd", "b", "bc", "show", "shut", "shutdown"],
    "mixed": ["show", "set", "a", "in", "input", "x y", "q\"t", "c\\nd", "c\\"],
}


class Gen:
    def __init__(self, rng, name, vocab="letters", nkw=3, depth=3, typed=0.0, refs=0, params=False, actions=0.0,
                 types=("str", "int", "alt", "bool", "rstr"), helps=0.0, shapes=None, nullrep=False, vocabulary=None, fns=0.0, faults=0.0):
        self.r = rng
        self.sp = Spec(name + "_")
        self.name = name
        v = list(vocabulary or VOCAB[vocab])
        rng.shuffle(v)
        self.kws = v[:max(1, nkw)]
        self.depth, self.typed, self.nrefs, self.params, self.actions = depth, typed, refs, params, actions
        self.types, self.helps, self.nullrep = types, helps, nullrep
        self.fns, self.faults = fns, faults
        self.avail = []         # grammars that can be referenced
        self.scope = []         # variables assigned so far in the grammar being generated
        self.ntag = 0

    # ---------------------------------------------------------------- leaves
    def leaf(self):
        r = self.r
        if r.random() < self.typed:
            ty = r.choice(self.types)
            h = {"h": "help of a " + ty} if self.helps and r.random() < self.helps else {}
            if ty == "int":
                lo, hi = r.choice([(1, 100), (0, 9), (5, 25), (10, 15), (-12, 12), (100, 120)])
                return tok(self.sp.typed("int", lo=lo, hi=hi, sug=10, **h))
            if ty == "alt":
                return tok(self.sp.typed("alt", o=r.choice([["alpha", "alto", "beta"], ["on", "off"], ["one two", "one"], ["al", "all", "x"], ["p\\nq", "p q"]]), **h))
            if ty == "rstr":
                return tok(self.sp.typed("rstr", lo=2, hi=4, **h))
            return tok(self.sp.typed(ty, **h))
        s = r.choice(self.kws)
        return tok(self.sp.kwtok(s, "help of " + s if r.random() < self.helps else ""))

    def nullable(self, x):
        k = x["k"]
        if k == "tok": return False
        if k == "opt": return True
        if k in ("seq", "set"): return all(self.nullable(c) for c in x["c"])
        if k == "alt": return any(self.nullable(c) for c in x["c"])
        if k == "rep": return x["n"] == 0 or self.nullable(x["c"][0])
        return self.nullable(dict((n, b) for n, _, b in self.sp.grams)[x["g"]])

    def some(self, d, kind):
        n = self.r.choice([2, 2, 3])
        return [self.gen(d - 1, kind) for _ in range(n)]

    def gen(self, d, inside=None):
        r = self.r
        x = r.random()
        if d <= 0 or x < .22:
            n = self.gref() if self.avail and r.random() < .35 else self.leaf()
        elif x < .42:
            n = seq(*self.some(d, "seq"))
        elif x < .57:
            n = alt(*self.some(d, "alt"))
        elif x < .72:
            c = self.some(d, "seq") if r.random() < .5 else [self.gen(d - 1, "opt1")]
            n = opt(*c)
            if len(c) == 1 and c[0]["k"] in ("seq", "opt"):
                n = c[0] if c[0]["k"] == "opt" else (opt(*c[0]["c"]) if not (c[0]["pre"] or c[0]["post"]) else c[0])
        elif x < .84:
            n = oset(*self.some(d, "set"))
        else:
            for _ in range(8):
                b = self.gen(d - 1, "rep")
                if self.nullrep and not self.nullable(b) and r.random() < .4:
                    b = opt(b) if b["k"] not in ("seq", "rep") else opt(self.leaf(), self.gen(0, "seq"))
                if self.nullrep or not self.nullable(b): break
            else:
                b = self.leaf()
            mn = r.choice([0, 1, 1, 2, 2, 3])
            mx = mn + r.choice([0, 0, 1, 1, 2])
            if mx == 0: mx = 1
            if (mn, mx) == (1, 1) or ((mn, mx) == (0, 1)):
                mx = 2
            n = rep(b, mn, mx)
        return self.decorate(n, inside)

    # --------------------------------------------------------------- actions
    def tag(self):
        self.ntag += 1
        return lit("t%d" % self.ntag)

    def val(self, allow_num, plain=False):
        r = self.r
        x = r.random()
        if allow_num and x < .5: return num(allow_num if r.random() < .7 else r.randint(1, 3))
        if self.scope and x < .8 and not plain: return var(r.choice(self.scope))
        return r.choice([lit(7), lit("s"), lit(True), lit(None), lit(-3), lit('e"\\n')])

    def inline(self, allow_num):
        """a use of the functions available inside actions"""
        r = self.r
        V = lambda: self.val(allow_num)
        W = lambda: self.val(allow_num, plain=r.random() < .6)
        f = r.choice(["list", "set", "dict", "append", "append", "update", "update", "inc", "dec", "add", "add", "nosuch"])
        if f in ("append", "update") and self.scope and r.random() < .9:
            a = [var(r.choice(self.scope))] + [W() for _ in range(r.choice([1, 2, 2]) if f == "append" else r.choice([2, 2, 2, 1]))]
        elif f in ("inc", "dec"): a = [V()] if r.random() < .9 else []
        elif f == "add": a = [V() for _ in range(r.choice([1, 2, 3]))]
        elif f == "dict": a = []
        else: a = [V() for _ in range(r.randint(0, 3))]
        return f, a

    def stmt(self, allow_num):
        r = self.r
        if r.random() < self.faults:
            f = r.choice(["bad", "abad", "nofn"])
            a = [self.tag(), self.val(allow_num)]
            if r.random() < .5: return call(f, *a)
            v = "$" + r.choice("uvw")
            if v not in self.scope: self.scope.append(v)
            return assign(v, callx(f, *a))
        if r.random() < self.fns:
            f, a = self.inline(allow_num)
            if r.random() < .4 and f in ("append", "update"): return inl(f, *a)
            v = "$" + r.choice("uvw")
            s = assign(v, fn(f, *a))
            if v not in self.scope: self.scope.append(v)
            return s
        x = r.random()
        if x < .45:
            return call(r.choice(["rec", "rec", "arec", "ret"]), self.tag(), self.val(allow_num))
        if x < .6:
            return call("rec", self.tag(), *[var(v) for v in self.scope[:3]])
        if x < .85:
            v = "$" + r.choice("uvw")
            s = assign(v, self.val(allow_num) if r.random() < .8 else callx("ret", self.val(allow_num)))
            if v not in self.scope: self.scope.append(v)
            return s
        return inl("print", self.tag(), lit(r.randint(0, 9)))

    def block(self, allow_num):
        return [self.stmt(allow_num) for _ in range(self.r.choice([1, 1, 2]))]

    def decorate(self, n, inside):
        r = self.r
        if not self.actions or n.get("decorated"):
            return n
        n["decorated"] = True
        if r.random() < self.actions:
            if not (inside in ("rep", "opt1") and False):
                n["post"] = self.block("pos")
        if r.random() < self.actions * .6:
            n["pre"] = self.block(0 if inside == "rep" else ("prev" if inside == "seq" and r.random() < .5 else 0))
        return n

    # ------------------------------------------------------------ references
    def gref(self):
        r = self.r
        name, par, _ = r.choice(self.avail)
        args = []
        if par and r.random() < .85:
            n = r.randint(0, len(par))
            pos = r.randint(0, n)
            for i in range(n):
                if self.scope and r.random() < .6: v = var(r.choice(self.scope))
                elif r.random() < .2: v = var("$nope")
                elif r.random() < .3: v = num(r.randint(1, 2))
                else: v = r.choice([lit(5), lit("w"), lit(True), lit(None), lit(0), lit(""), lit(False)])
                args.append(("" if i < pos else par[i][0], v))
            if r.random() < .3:
                tail = args[pos:]; r.shuffle(tail); args[pos:] = tail
        return ref(name, args)

    def build(self):
        r = self.r
        for i in range(self.nrefs):
            par = []
            if self.params:
                par = [("$p%d" % (j + 1), r.choice([None, lit(3), lit("d"), lit(0), lit("")])) for j in range(r.randint(0, 2))]
            self.scope = [p for p, _ in par]
            b = self.gen(max(1, self.depth - 1))
            nm = "%s_r%d" % (self.name, i + 1)
            self.sp.gram(nm, par, b)
            self.avail.append((nm, par, b))
        self.scope = []
        par, args = [], []
        if self.params:
            par = [("$q%d" % (j + 1), r.choice([None, lit(4), lit(0)])) for j in range(r.randint(0, 2))]
            args = [r.choice([lit(9), lit("arg"), lit(None), lit(0), lit("")]) for _ in range(r.randint(0, len(par)))]
            self.scope = [p for p, _ in par]
        body = self.gen(self.depth)
        self.sp.gram(self.name, par, body)
        for _, _, b in self.sp.grams:
            self.fix(b, 1, "root")
        return self.sp, body, args

    # positions in the actions are known only once the tree stands
    def fix(self, x, pos, pk):
        def fa(a, here):
            if a["a"] == "num":
                if a["i"] == "pos": a["i"] = here
                elif a["i"] == "prev": a["i"] = max(1, here - 1)
            for b in a.get("args", []): fa(b, here)
        def fs(ss, here):
            for s in ss:
                if s["o"] == "set": fa(s["r"], here)
                for a in s.get("args", []): fa(a, here)
        fs(x["pre"], pos)
        fs(x["post"], pos)
        # what $1 means to a repetition before its next round has a value is not defined
        if pk == "rep" and x["k"] == "ref":
            x["args"] = [(p, lit(5) if v["a"] == "num" else v) for p, v in x["args"]]
        for i, c in enumerate(x["c"]):
            self.fix(c, i + 1 if x["k"] in ("seq", "opt", "set") else 1, x["k"])

    # ----------------------------------------------------------------- words
    def words(self, abbr=0, junk=True, limit=6):
        r = self.r
        out = []
        def form(s):
            return quote(s) if any(c in s for c in ' "\n\t\r\\') else s
        used = [d for d in self.sp.tokens.values()]
        for d in used:
            if d["ty"] == "kw":
                f = form(d["s"])
                out.append(f)
                for _ in range(abbr):
                    if len(f) > 1: out.append(f[:r.randint(1, len(f) - 1)])
            elif d["ty"] == "int":
                out.append(str(r.choice([d["lo"], d["hi"], d["hi"] + 1, (d["lo"] + d["hi"]) // 2])))
                if abbr: out.append(r.choice(["1", "2", "0", "-", "-1"]))
            elif d["ty"] == "alt":
                o = form(r.choice(d["o"]))
                out.append(o)
                if abbr: out.append(o[:max(1, len(o) - 1)])
                if abbr: out.append(o[:1])
            elif d["ty"] == "bool":
                out.append(r.choice(["true", "False", "T", "fal"]))
            elif d["ty"] == "rstr":
                out.append(r.choice(["pq", "pqrs", "pqrst", '"p q"', "p", '"a\\"b\\\\"', '"\\n\\t\\n\\t\\n"']))
            elif d["ty"] == "str":
                out.append(r.choice(["txt", '"two words"', '"e\\nf"', '"c\\\\nd"', "5"]))
        if junk: out.append("zz")
        seen = []
        for w in out:
            if w and w not in seen: seen.append(w)
        if len(seen) > limit:
            keep = seen[:]
            r.shuffle(keep)
            seen = keep[:limit]
        return seen
