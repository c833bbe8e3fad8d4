"""Which jobs decide which property."""


def core_jobs(profiles, aspects, n_quick, shards=8, n_thorough=None):
    """the grammar machine: `profiles' spread over shards"""
    def jobs(tier, seed):
        out = []
        per = n_quick if tier == "quick" else (n_thorough or 5 * n_quick)
        k = shards if tier == "quick" else 4 * shards
        for i in range(k):
            prof = profiles[i % len(profiles)]
            out.append({"module": "core", "func": "job",
                        "params": {"seed": 1000 * seed + i, "n": max(4, per // k * len(profiles) // len(profiles)),
                                   "prof": prof, "aspects": aspects}})
        return out
    return jobs


CHECKS = {}


def check(pid, jobs, need=(), **kw):
    CHECKS[pid] = dict(jobs=jobs, need=list(need), **kw)


P_STRUCT = {"vocab": "letters", "nkw": [1, 3], "depth": 3}
P_REFS = {"vocab": "letters", "nkw": [2, 3], "depth": 2, "refs": 2}
P_NULLREP = {"vocab": "letters", "nkw": [1, 3], "depth": 3, "nullrep": True}
P_WIDE = {"vocab": "letters", "nkw": [3, 4], "depth": 3, "maxlen": 6}
P_ABBR = {"vocab": "abbrev", "nkw": [2, 5], "depth": 2, "abbr": 1}
P_FREE = {"vocab": "mixed", "nkw": [2, 4], "depth": 2, "typed": 0.5, "abbr": 1, "maxlen": 4}
P_HELP = {"vocab": "abbrev", "nkw": [2, 4], "depth": 2, "abbr": 1, "helps": 0.5, "refs": 1, "typed": 0.2, "limit": 6}
P_ACT = {"vocab": "letters", "nkw": [2, 4], "depth": 3, "refs": 1, "actions": 0.6}
P_ACT2 = {"vocab": "letters", "nkw": [2, 4], "depth": 2, "refs": 2, "actions": 0.8, "layout": True, "params": True}
P_VARS = {"vocab": "letters", "nkw": [2, 3], "depth": 2, "refs": 2, "actions": 0.8, "params": True, "maxlen": 4}
P_FNS = {"vocab": "letters", "nkw": [2, 4], "depth": 2, "refs": 1, "actions": 0.8, "params": True, "fns": 0.5}
P_FAULT = {"vocab": "mixed", "nkw": [2, 4], "depth": 2, "refs": 1, "typed": 0.4, "actions": 0.7, "params": True,
           "faults": 0.3, "fns": 0.1}
P_TYPACT = {"vocab": "mixed", "nkw": [2, 4], "depth": 2, "refs": 1, "typed": 0.5, "abbr": 1, "actions": 0.7, "maxlen": 4}

check("C01", core_jobs([P_STRUCT, P_REFS, P_NULLREP, P_WIDE], ["result"], 2800), need=["line:success", "line:partial", "line:failure", "line:ambigous"])
check("C02", core_jobs([P_ABBR, P_FREE, P_TYPACT, P_ABBR], ["result", "values", "effects"], 1000), need=["line:success", "line:ambigous"])
check("C03", core_jobs([P_STRUCT, P_ABBR, P_FREE, P_HELP], ["offers"], 1000), need=["offers", "helps"])
check("C04", core_jobs([P_ACT, P_TYPACT, P_FAULT, P_ACT2], ["noeffect", "dryeffects"], 1200), need=["line:partial", "line:failure", "line:ambigous", "actions"])
check("C05", core_jobs([P_ACT, P_ACT2], ["effects"], 1600), need=["actions"])
check("C06", core_jobs([P_ACT, P_TYPACT], ["effects", "values"], 1600), need=["actions"])
check("C07", core_jobs([P_VARS], ["effects"], 1600), need=["actions"])
check("C21", core_jobs([P_FNS], ["effects"], 1600), need=["actions"])

LEX = [(["a", "n", " ", '"', "\\"], 7), (["a", " ", '"', "\\", "\t", "\n", "\r", "\0"], 5), (['"', "\\", "\t", "\n", "a"], 7),
       (['"', "\\", "0", "r", "t", "b", "v", "a", "q"], 5), (["#", "-", "'", ";", "|", '"', " ", "$"], 5),
       (["1", ",", "{", "(", "\u00e9", '"', "\\", "<"], 5), ([" ", "\t", "x"], 9), (['"', " ", "\\"], 9)]
TRIP = [(["a", "n", " ", '"', "\\"], 6), (["a", " ", '"', "\\", "\n", "\t", "\r", "\0", "\b", "\v", "\a"], 4),
        (["\\", '"'], 12), (["0", "r", "t", "b", "v", "a", "\\"], 5), (["\\", "n", "\n", '"'], 6), (["#", "'", ";", "-", "\u00e9", " "], 5),
        (["\t", " ", "x", '"'], 6), (["\\", "b", "\b", " "], 6)]


def text_jobs(func, table, **kw):
    def jobs(tier, seed):
        return [{"module": "text", "func": func, "params": dict(alphabet=a, maxlen=n + (1 if tier != "quick" else 0), seed=seed + i, **kw)}
                for i, (a, n) in enumerate(table)]
    return jobs


check("C09", text_jobs("lex_job", LEX), need=["accepted", "rejected", "incomplete", "quoted"])
check("C10", text_jobs("trip_job", TRIP), need=["strings", "quoted", "tokens", "lines"])


def int_jobs(tier, seed):
    n, parts = (88, 16) if tier == "quick" else (400, 64)
    return [{"module": "toks", "func": "int_job", "params": dict(seed=seed, n=n, part=p, parts=parts)} for p in range(parts)]


def tok_jobs(tier, seed):
    k, m = (1, 1) if tier == "quick" else (6, 3)
    out = []
    for i in range(k):
        for kind, n in (("rstr", 8 * m), ("dec", 16 * m), ("bool", 2), ("alt", 60 * m), ("kw", 20 * m), ("str", 1), ("alt", 60 * m), ("dec", 16 * m)):
            out.append({"module": "toks", "func": "other_job", "params": dict(seed=100 * seed + len(out), kind=kind, n=n)})
    return out


check("C11", int_jobs, need=["int:value", "int:partial", "int:failure"])
check("C12", tok_jobs, need=["rstr:value", "rstr:failure", "dec:value", "dec:partial", "bool:value", "alt:value", "alt:partial", "kw:value"])


def cmd_jobs(tier, seed):
    profs = [{"vocab": "letters", "nkw": [2, 4], "depth": 2, "refs": [0, 2], "actions": 0.7, "params": True, "fns": 0.1},
             {"vocab": "mixed", "nkw": [2, 4], "depth": 2, "refs": [0, 2], "actions": 0.7, "typed": 0.4, "abbr": 1, "faults": 0.1}]
    k, n = (16, 70) if tier == "quick" else (96, 150)
    return [{"module": "cmdgen", "func": "job", "params": dict(seed=1000 * seed + i, n=n, prof=profs[i % 2])} for i in range(k)]


check("C08", cmd_jobs, need=["handlers", "handler args", "line:partial", "line:failure", "line:ambigous"])


def sess_jobs(kinds, n=3, runs=1, extra=()):
    """sessions: short ones of each configuration exhaustively, long ones by simulation"""
    def jobs(tier, seed):
        out, deep = [], tier != "quick"
        for i in range(16 if not deep else 96):
            kind = kinds[i // 2 % len(kinds)]
            p = dict(seed=1000 * seed + i, kind=kind, runs=runs)
            if i % 2: p.update(n=2 * n, sim=100, simdepth=15 if not deep or i % 4 == 1 else 30, nlines=14)
            else: p.update(n=n, depth=4 if not deep or i % 8 else 5, sample=300 if not deep else 4000)
            out.append({"module": "sess", "func": "job", "params": p})
        return out + [dict(j) for e in extra for j in e(tier, seed)]
    return jobs


check("C13", sess_jobs(["plain", "files"]), need=["user:recall", "user:int", "mark", "err", "user:recallint"])
check("C14", sess_jobs(["files", "mixed", "files", "ask"]), need=["mark", "read", "err", "out"])
check("C15", sess_jobs(["ctx", "ctx", "mixed"], n=2), need=["contexts left", "handed up", "hook:exit"])
check("C16", sess_jobs(["fault", "mixed"], extra=[lambda tier, seed: core_jobs([P_FAULT], ["effects", "result"], 120)(tier, seed)]),
      need=["err", "mark", "actions"])
check("C23", sess_jobs(["ask", "mixed", "ask"]), need=["ask", "answer", "user:line"])
check("C25", sess_jobs(["life", "mixed", "life", "ctx"], runs=3), need=["end", "refused", "hook:exit", "user:run"])


def edit_jobs(tier, seed):
    out, deep = [], tier != "quick"
    for i in range(16 if not deep else 128):
        p = dict(seed=1000 * seed + i, n=40, depth=[10, 14, 20, 28][i % 4], sim=1000 if not deep else 4000, sample=8000)
        if i % 8 == 7: p = dict(seed=1000 * seed + i, n=10 if not deep else 6, depth=4 if not deep else 5, sample=20000)
        out.append({"module": "editor", "func": "job", "params": p})
    return out


check("C19", edit_jobs, need=["listed", "inserted text", "inserted blank", "refused", "key:back", "key:left"])


ARGS = [('a "\\\n\t', 16, 4), ('ab "\\', 15, 4), ('\\n0rtbva"', 15, 4), ('#;-|$ \'"', 15, 4), ('\0\r\x0b\x08\x07 "\\', 15, 4),
        ('a,{(<:\u00e9 ', 15, 4), ('"\\ ', 15, 4), ('\n\t\r ab', 15, 4)]


def arg_jobs(tier, seed):
    k, out = (1, []) if tier == "quick" else (6, [])
    for j in range(k):
        out += [{"module": "args", "func": "job", "params": dict(alphabet=a, n=n if k == 1 else n + 4, maxlen=m, seed=seed + 100 * j + i)}
                for i, (a, n, m) in enumerate(ARGS)]
    profs = [{"vocab": "letters", "nkw": [2, 4], "depth": 2, "refs": [0, 2], "actions": 0.5, "faults": 0.2},
             {"vocab": "mixed", "nkw": [2, 4], "depth": 2, "refs": [0, 2], "actions": 0.5, "typed": 0.4, "abbr": 1}]
    return out + [{"module": "cmdgen", "func": "job", "params": dict(seed=7000 * seed + i, n=50, prof=profs[i % 2], args=True)} for i in range(8 * k)]


check("C18", arg_jobs, need=["args:run", "args:refused", "class:run", "line:run", "quoting", "status 0", "status not 0"])


def hist_jobs(tier, seed):
    profs = [{"vocab": "mixed", "nkw": [2, 4], "depth": 2, "refs": [1, 2], "typed": 0.5, "abbr": 1, "actions": 0.6, "faults": 0.1},
             {"vocab": "letters", "nkw": [2, 4], "depth": 2, "refs": [1, 2], "actions": 0.8, "params": True, "fns": 0.4},
             {"vocab": "abbrev", "nkw": [2, 5], "depth": 2, "refs": [1, 2], "typed": 0.3, "abbr": 2, "helps": 0.3},
             {"vocab": "letters", "nkw": [1, 3], "depth": 3, "refs": [1, 2], "nullrep": True, "actions": 0.3}]
    k, sim = (16, 260) if tier == "quick" else (128, 1500)
    return [{"module": "hist", "func": "job", "params": dict(seed=1000 * seed + i, n=16, prof=profs[i % 4], sim=sim, depth=[20, 30, 40][i % 3])}
            for i in range(k)]


check("C17", hist_jobs, need=["op:exec", "op:both", "op:next", "op:type", "op:leave", "line:success", "line:ambigous", "line:partial", "offers"])


# (texts to begin with, symbols that go on, length, simulated behaviours and their length)
TEXTS = [
    (["", "g :"], '"a" "b" ( ) { } | , * 2 : ; << >>', 5, None, 0),
    (['g : "a" <<'], 'call rec list ( ) , ; = $u $1 1 True None "s" >>', 6, None, 0),
    (['g : "a" <<', 'g : << call rec ('], 'call rec list ( ) , ; = $u $1 1 True None "s" >>', 0, 8000, 10),
    (['token T StringToken ( ) ; h [ $p , $q = 3 ] : "c" << call rec ( $p , $q ) ; >> ; g :'], 'h [ ] $p $q $x = 1 , ; "s"', 7, None, 0),
    (["", "token T StringToken"], 'g h T token StringToken AlternativeStringsToken [ ] $p $q = : ; , "a" ( )', 5, None, 0),
    (["g :"], '"a" * 0 -1 2 : ( ) junk & {', 5, None, 0),
    (["g [ $p , $q ] :", 'h : "c" ; g :'], 'g h k "a" "b" : ; | , ( ) { } * 2 << >> [ ] $p $q $1 rec call 1 "s" token', 0, 2500, 30),
    (['token U StringToken ( ) , K ; h [ $p ] : "c" ; g :'], 'U K h "a" : [ ] $p = 1 | , ; ( ) *', 5, None, 0),
    (['g : "a" | { ( "b" , "c" ) * ( 1 : 2 ) } << $x = 1 ; >>'], '"a" "b" : , | * ( ) { } << >> 2 ;', 5, None, 0),
    (['g : ( "a" | "b" ) , { "c" } ; h'], 'g "a" "b" : ; | , ( ) { } * 0 2 << >> [ ] $p $1 rec call "s" = junk', 0, 2500, 24),
]


def text_jobs(tier, seed):
    out, deep = [], tier != "quick"
    for j in range(1 if not deep else 8):
        for i, (start, alpha, n, sim, d) in enumerate(TEXTS):
            p = dict(seed=1000 * seed + 100 * j + i, start=start, alphabet=alpha, maxlen=n, sim=sim, simdepth=d)
            if deep: p.update(texts=8000, langs=200, maxlen=n + (1 if n and j % 2 else 0), sim=sim and 3 * sim, simdepth=d + 8 * (j % 3))
            out.append({"module": "syntax", "func": "job", "params": p})
    return out


check("C20", text_jobs, need=["accepted", "rejected", "languages", "line:success", "line:failure"])
