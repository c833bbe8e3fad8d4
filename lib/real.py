"""Drive the real package of /repo through its public interface."""
import asyncio, io, os, signal, sys

sys.dont_write_bytecode = True
REPO = os.environ.get("VERIF_REPO", "/repo")
if REPO not in sys.path:
    sys.path.insert(0, REPO)

import ply.yacc as _yacc

# ply works out the tables of the same parser anew for every text; keep them
# (the productions, and with them the actions, stay those of each parser)
_tables = {}
_Generated = _yacc.LRGeneratedTable


def _kept(grammar, method="LALR", log=None):
    key = (method, grammar.Start, repr(sorted(grammar.Precedence.items())),
           tuple((p.name, tuple(p.prod), p.prec, p.func) for p in grammar.Productions))
    if key not in _tables:
        _tables[key] = _Generated(grammar, method, log)
    t = _yacc.LRTable()
    t.__dict__.update(_tables[key].__dict__)
    t.grammar, t.lr_productions = grammar, grammar.Productions
    return t


_yacc.LRGeneratedTable = _kept

from nessaid_cli.compiler import compile_grammar                    # noqa
from nessaid_cli.interface import CliInterface                     # noqa
from nessaid_cli.elements import EndOfInpuToken                     # noqa
from nessaid_cli import tokens as T                                 # noqa

assert os.path.realpath(T.__file__).startswith(os.path.realpath(REPO) + os.sep), T.__file__

LOOP = asyncio.new_event_loop()
asyncio.set_event_loop(LOOP)
EOL = "<NEWLINE>"

TOKEN_CLASSES = [T.StringToken, T.RangedIntToken, T.RangedStringToken, T.AlternativeStringsToken,
                 T.BooleanToken, T.RangedDecimalToken, T.PathToken]


def project(v, n=4):
    if n == 0 and isinstance(v, (list, tuple, set, frozenset, dict)): return {"t": "deep"}
    if v is None: return {"t": "none"}
    if isinstance(v, bool): return {"t": "bool", "b": v}
    if isinstance(v, int): return {"t": "int", "i": v}
    if isinstance(v, float):
        m = v * 1000
        return {"t": "dec", "m": int(round(m)), "exact": abs(m - round(m)) < 1e-6}
    if isinstance(v, str): return {"t": "str", "s": str(v)}
    if isinstance(v, (list, tuple)): return {"t": "list", "e": [project(x, n - 1) for x in v]}
    if isinstance(v, (set, frozenset)): return {"t": "set", "e": [project(x, n - 1) for x in v]}
    if isinstance(v, dict): return {"t": "dict", "e": [[project(k, n - 1), project(x, n - 1)] for k, x in v.items()]}
    return {"t": "other", "s": repr(type(v))}


def canon(v):
    """one spelling for values of either side"""
    t = v["t"]
    if t == "list": return ("list", tuple(canon(x) for x in v["e"]))
    if t == "set": return ("set", tuple(sorted((canon(x) for x in v["e"]), key=repr)))
    if t == "dict": return ("dict", tuple((canon(k), canon(x)) for k, x in v["e"]))
    if t == "str": return ("str", v["s"])
    if t == "int": return ("int", v["i"])
    if t == "bool": return ("bool", v["b"])
    if t == "dec": return ("dec", v["m"]) if v.get("exact", True) else ("dec", "inexact", v["m"])
    return (t,)


def canon_log(log):
    return [(e["f"], tuple(canon(a) for a in e["a"])) for e in log]


class Recorder(CliInterface):
    """an embedding program whose functions only record how they are called"""

    def __init__(self, gs, **kw):
        self.events = []
        self.out, self.err = io.StringIO(), io.StringIO()
        super().__init__(LOOP, gs, stdin=io.StringIO(), stdout=self, stderr=self.err, **kw)

    # the standard output of the interface: print() inside actions
    _buf = ""
    def write(self, s):
        self._buf += s
        while "\n" in self._buf:
            ln, self._buf = self._buf.split("\n", 1)
            self.events.append({"f": "print", "a": [project(ln)]})
        return len(s)
    def flush(self):
        pass

    def get_token_classes(self):
        return TOKEN_CLASSES

    def _ev(self, f, a):
        self.events.append({"f": f, "a": [project(x) for x in a]})
    def rec(self, *a): self._ev("rec", a)
    def put(self, *a): self._ev("put", a)
    def list(self, *a): self._ev("list", a)
    async def arec(self, *a):
        await asyncio.sleep(0)
        self._ev("arec", a)
    def ret(self, *a):
        self._ev("ret", a)
        return a[0] if a else None
    async def aret(self, *a):
        self._ev("aret", a)
        return a[0] if a else None
    def bad(self, *a):
        self._ev("bad", a)
        raise RuntimeError("bad")
    async def abad(self, *a):
        self._ev("abad", a)
        raise RuntimeError("abad")


class Hang(BaseException):
    """the code under test did not come back"""


_fired = [0]


def _alarm(*_):
    _fired[0] += 1
    if _fired[0] > 5:                 # it swallows the interruption
        os._exit(70)
    raise Hang("no answer within %d s" % LIMIT)


LIMIT = 60


def run(coro):
    """run to completion; a call that does not come back raises Hang"""
    _fired[0] = 0
    signal.signal(signal.SIGALRM, _alarm)
    signal.setitimer(signal.ITIMER_REAL, LIMIT, 5)
    try:
        return LOOP.run_until_complete(coro)
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)


def offers(next_tokens):
    return sorted(set(EOL if t == EndOfInpuToken else str(t) for t in next_tokens))


def pyval(a):
    k = a["a"]
    return {"int": lambda: a["i"], "str": lambda: a["s"], "bool": lambda: a["b"], "none": lambda: None}[k]()


class Observation:
    pass


def execute(cli, line, args=()):
    """execute one line; everything an outside observer sees"""
    o = Observation()
    cli.events.clear()
    al = list(args)
    try:
        r = run(cli.match(list(line), dry_run=False, last_token_complete=True, arglist=al))
        o.r, o.vals, o.exc = r.result, [project(v) for v in r.matched_values], None
    except (Exception, Hang) as e:                # an escaping exception is an observation
        o.r, o.vals, o.exc = "exception", [], repr(e)
    o.log = list(cli.events)
    o.out = [project(v) for v in al]
    return o


def suggest(cli, line, complete):
    o = Observation()
    cli.events.clear()
    try:
        r = run(cli.match(list(line), dry_run=True, last_token_complete=complete))
        o.r, o.nx, o.exc = r.result, offers(r.next_tokens), None
        o.helps = sorted([t.completion or "", t.helpstring] for t in r.next_tokens if t != EndOfInpuToken)
    except (Exception, Hang) as e:
        o.r, o.nx, o.exc, o.helps = "exception", [], repr(e), []
    o.log = list(cli.events)
    return o
