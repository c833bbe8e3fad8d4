"""Random grammar specifications: the abstract tree goes to TLC (corpus), the
rendered text goes to the real compiler."""
import random

# ------------------------------------------------------------- constructors
def tok(t, pre=(), post=()):
    return {"k": "tok", "t": t, "c": [], "pre": list(pre), "post": list(post)}
def node(k, c, pre=(), post=(), **kw):
    d = {"k": k, "c": list(c), "pre": list(pre), "post": list(post)}
    d.update(kw)
    return d
def seq(*c, **kw): return node("seq", c, **kw)
def opt(*c, **kw): return node("opt", c, **kw)
def alt(*c, **kw): return node("alt", c, **kw)
def oset(*c, **kw): return node("set", c, **kw)
def rep(x, n, m, **kw): return node("rep", [x], n=n, m=m, **kw)
def ref(g, args=(), **kw): return node("ref", [], g=g, args=list(args), **kw)

def num(i): return {"a": "num", "i": i}
def var(x): return {"a": "var", "x": x}
def lit(v):
    if v is None: return {"a": "none"}
    if v is True or v is False: return {"a": "bool", "b": v}
    if isinstance(v, int): return {"a": "int", "i": v}
    return {"a": "str", "s": v}
def fn(f, *args): return {"a": "fn", "f": f, "args": list(args)}
def callx(f, *args): return {"a": "call", "f": f, "args": list(args)}
def call(f, *args): return {"o": "call", "f": f, "args": list(args)}
def inl(f, *args): return {"o": "fn", "f": f, "args": list(args)}
def assign(x, r): return {"o": "set", "x": x, "r": r}

def kw(s, h=""): return {"ty": "kw", "s": s, "h": h}


class Spec:
    """A set of token definitions and named grammars, renderable as text."""

    def __init__(self, prefix):
        self.prefix = prefix
        self.tokens = {}      # key -> tokendef (kw: key is the word)
        self.grams = []       # (name, params[(x, default or None)], body)
        self.roots = []       # dict(name, words, maxlen, args)

    def gram(self, name, params, body):
        self.grams.append((name, params, body))
        return name

    def kwtok(self, s, h=""):
        key = ("kw", s, h)
        self.tokens.setdefault(key, kw(s, h))
        return key

    def typed(self, ty, **kwargs):
        d = dict(ty=ty, h=kwargs.pop("h", ""))
        d.update(kwargs)
        key = (self.prefix + ty.upper() + "_" + "_".join(
            "".join(ch if ch.isalnum() else ("n" if ch == "-" else "x") for ch in str(v)) for k, v in sorted(d.items()) if k not in ("ty", "h")), d["h"])
        self.tokens.setdefault(key, d)
        return key


class Corpus:
    """several Specs flattened into the tables TLC reads"""

    def __init__(self):
        self.node, self.tok, self.root, self.text = [], [], [], []
        self._tokidx = {}

    def add(self, sp, layout=None):
        for key, d in sp.tokens.items():
            if key not in self._tokidx:
                self.tok.append(d)
                self._tokidx[key] = len(self.tok)
        bodies = {}
        params = {}

        def flat(x):
            d = {k: v for k, v in x.items() if k not in ("c", "g", "style")}
            if x["k"] == "ref":
                d["c"] = [bodies[x["g"]]]
                d["par"] = [{"x": p, "d": (q or lit(None))} for p, q in params[x["g"]]]
                d["args"] = [{"p": p, "v": v} for p, v in x["args"]]
            else:
                d["c"] = [flat(y) for y in x["c"]]
            if x["k"] == "tok":
                d["t"] = self._tokidx[x["t"]]
            self.node.append(d)
            return len(self.node)

        for name, par, body in sp.grams:
            params[name] = par
            bodies[name] = flat(body)
        for r in sp.roots:
            self.root.append({"name": r["name"], "node": bodies[r["name"]], "words": list(r["words"]),
                              "maxlen": r["maxlen"],
                              "par": [{"x": p, "d": (q or lit(None))} for p, q in params[r["name"]]],
                              "args": list(r.get("args", []))})
        self.text.append(render_spec(sp, layout))

    def json(self):
        from tlc import CTL
        return {"ctl": CTL, "node": self.node, "tok": self.tok, "root": self.root}


# ---------------------------------------------------------------- rendering
ESC = {"\n": "\\n", "\0": "\\0", "\r": "\\r", "\t": "\\t", "\b": "\\b", "\v": "\\v", "\a": "\\a", '"': '\\"', "\\": "\\\\"}

def quote(s):
    return '"' + "".join(ESC.get(c, c) for c in s) + '"'

class Layout:
    """white space and comments between the symbols of a grammar text"""
    def __init__(self, rng=None):
        self.rng = rng
    def sp(self):
        if not self.rng:
            return " "
        r = self.rng.random()
        if r < .55: return " "
        if r < .7: return "\n   "
        if r < .8: return "\t "
        if r < .86: return "  # a comment ; | { ( \"x\n"
        if r < .92: return " // another << : > comment\n"
        if r < .97: return " /* block \n ; \" comment */ "
        return "\r\n"
    def pick(self, n):
        return 0 if not self.rng else self.rng.randrange(n)

def r_arg(a, lay):
    k = a["a"]
    if k == "num": return "$%d" % a["i"]
    if k == "var": return a["x"]
    if k == "int": return str(a["i"])
    if k == "str": return quote(a["s"])
    if k == "bool": return "True" if a["b"] else "False"
    if k == "none": return "None"
    args = ", ".join(r_arg(x, lay) for x in a["args"])
    return ("call " if k == "call" else "") + a["f"] + "(" + args + ")"

def r_stmt(s, lay):
    if s["o"] == "set":
        return "%s = %s;" % (s["x"], r_arg(s["r"], lay))
    args = ", ".join(r_arg(x, lay) for x in s["args"])
    return ("call " if s["o"] == "call" else "") + s["f"] + "(" + args + ");"

def r_block(ss, lay):
    if not ss:
        return ""
    if len(ss) > 1 and lay.pick(3) == 1:       # several blocks instead of one
        k = 1 + lay.pick(len(ss) - 1)
        return r_block(ss[:k], lay) + lay.sp() + r_block(ss[k:], lay)
    nl = "\n" if lay.pick(3) == 1 else " "
    return "<<" + nl + nl.join(r_stmt(s, lay) for s in ss) + nl + ">>"

def r_term(x, sp, lay):
    """x as a term (what may stand inside a sequence), pre included, post excluded"""
    k = x["k"]
    if x["pre"]:
        if k == "opt" and len(x["c"]) > 1 and lay.pick(2):
            # the action of the whole optional block, written inside the braces
            return "{" + lay.sp() + r_block(x["pre"], lay) + lay.sp() + lay.sp().join(r_elem(c, sp, lay) for c in x["c"]) + lay.sp() + "}"
        y = dict(x)
        y["pre"] = []
        body = r_term(y, sp, lay) if k == "alt" else r_unit_body(y, sp, lay)
        return "(" + lay.sp() + r_block(x["pre"], lay) + lay.sp() + body + lay.sp() + ")"
    if k == "tok":
        d = sp.tokens[x["t"]]
        s = quote(d["s"]) if d["ty"] == "kw" else x["t"][0]
        if d["h"]:
            s += lay.sp() + ":" + lay.sp() + quote(d["h"])
        return "(" + lay.sp() + s + lay.sp() + ")" if lay.pick(12) == 1 else s
    if k == "ref":
        s = x["g"]
        if x["args"]:
            s += "[" + ", ".join((p + "=" if p else "") + r_arg(v, lay) for p, v in x["args"]) + "]"
        return s
    if k == "opt":
        if len(x["c"]) == 1:
            return "{" + lay.sp() + r_unit(x["c"][0], sp, lay) + lay.sp() + "}"
        return "{" + lay.sp() + lay.sp().join(r_elem(c, sp, lay) for c in x["c"]) + lay.sp() + "}"
    if k == "rep":
        c = x["c"][0]
        t = r_elem_paren(c, sp, lay)
        n, m = x["n"], x["m"]
        if n == m:
            cnt = [str(n), "(%d)" % n, "(%d:%d)" % (n, n)][lay.pick(3)]
        else:
            cnt = ["(%d:%d)" % (n, m), "(%d : %d)" % (m, n)][lay.pick(2)]
        return t + lay.sp() + "*" + lay.sp() + cnt
    return "(" + lay.sp() + r_unit_body(x, sp, lay) + lay.sp() + ")"

def r_post(x, lay):
    return (lay.sp() + r_block(x["post"], lay)) if x["post"] else ""

def r_elem(x, sp, lay):
    return r_term(x, sp, lay) + r_post(x, lay)

def r_elem_paren(x, sp, lay):
    if x["post"]:
        return "(" + lay.sp() + r_unit(x, sp, lay) + lay.sp() + ")"
    if x["k"] == "rep":
        return "(" + r_term(x, sp, lay) + ")"
    return r_term(x, sp, lay)

def r_unit_body(x, sp, lay):
    """x without pre and post where a rule is expected"""
    k = x["k"]
    if k == "seq":
        return lay.sp().join(r_elem(c, sp, lay) for c in x["c"])
    if k == "set":
        return (lay.sp() + "," + lay.sp()).join(r_elem(c, sp, lay) for c in x["c"])
    if k == "alt":
        return (lay.sp() + "|" + lay.sp()).join(r_unit(c, sp, lay) for c in x["c"])
    return r_term(x, sp, lay)

def r_unit(x, sp, lay):
    """x where a rule or one branch of a choice is expected"""
    k = x["k"]
    if x["post"] or k == "alt" and x["pre"]:
        if k == "alt" and not x["post"]:
            y = dict(x); y["pre"] = []
            return r_block(x["pre"], lay) + lay.sp() + r_term(y, sp, lay)
        y = dict(x); y["pre"] = []
        body = r_elem(y, sp, lay)
        return (r_block(x["pre"], lay) + lay.sp() if x["pre"] else "") + body
    if x["pre"]:
        y = dict(x); y["pre"] = []
        return r_block(x["pre"], lay) + lay.sp() + r_unit_body(y, sp, lay)
    if k == "alt":
        return "(" + lay.sp() + r_unit_body(x, sp, lay) + lay.sp() + ")"
    return r_unit_body(x, sp, lay)

def r_rule(x, sp, lay):
    if x["k"] == "alt" and not x["pre"] and not x["post"]:
        return r_unit_body(x, sp, lay)
    return r_unit(x, sp, lay)

def r_tokdef(key, d):
    name = key[0]
    ty = d["ty"]
    if ty == "str": return "%s StringToken()" % name
    if ty == "int": return "%s RangedIntToken(%d, %d)" % (name, d["lo"], d["hi"]) if d["sug"] == 10 else \
        "%s RangedIntToken(%d, %d, %d)" % (name, d["lo"], d["hi"], d["sug"])
    if ty == "alt": return "%s AlternativeStringsToken(%s)" % (name, ", ".join(quote(o) for o in d["o"]))
    if ty == "rstr": return "%s RangedStringToken(%d, %d)" % (name, d["lo"], d["hi"])
    if ty == "bool": return "%s BooleanToken()" % name
    if ty == "dec": return "%s RangedDecimalToken(%s, %s)" % (name, dec(d["lo"]), dec(d["hi"]))
    raise ValueError(ty)

def dec(m):
    return ("-" if m < 0 else "") + "%d.%03d" % (abs(m) // 1000, abs(m) % 1000)

def tokdefs(sp):
    """the definitions of the token classes in use (one each, however many help texts are attached to it)"""
    return list(dict.fromkeys("token %s;" % r_tokdef(key, d) for key, d in sp.tokens.items() if d["ty"] != "kw"))

def render_spec(sp, lay=None):
    lay = lay or Layout()
    out = []
    out += tokdefs(sp)
    for name, par, body in sp.grams:
        ps = ""
        if par:
            ps = "[" + ", ".join(p if q is None else p + " = " + r_arg(q, lay) for p, q in par) + "]"
        out.append(name + ps + lay.sp() + ":" + lay.sp() + r_rule(body, sp, lay) + lay.sp() + ";")
    return "\n".join(out) + "\n"
