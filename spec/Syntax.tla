---------------------------- MODULE Syntax ----------------------------
(* The concrete syntax of grammar specifications, as a machine that reads  *)
(* one symbol at a time and builds the abstract tree the other modules     *)
(* give a meaning to.                                                       *)
(*                                                                         *)
(* Feed(p, x) is the parser after the symbol x, DEAD when no text that     *)
(* goes on like this is well formed, and SKIP for texts whose meaning is   *)
(* not defined (names that are not declared yet).                          *)
(*                                                                         *)
(* The parser p:                                                           *)
(*   stk    open constructs, the outermost first, each with what it has    *)
(*          read so far and what it waits for (w)                           *)
(*   gr     grammars defined, in order: n, par, body                        *)
(*   tk     tokens declared: n, cls, args                                   *)
(*   err    something is wrong that does not show in the shape of the text  *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC

DEAD == [dead |-> TRUE]
SKIP == [skip |-> TRUE]
IsDead(p) == "dead" \in DOMAIN p
IsSkip(p) == "skip" \in DOMAIN p
Alive(p) == "stk" \in DOMAIN p

TopF(p) == p.stk[Len(p.stk)]
Below(p) == SubSeq(p.stk, 1, Len(p.stk) - 1)
Set(p, f) == [p EXCEPT !.stk = Append(Below(p), f)]
Push(p, f) == [p EXCEPT !.stk = Append(@, f)]
Replace(p, f, h) == [p EXCEPT !.stk = Append(Append(Below(p), f), h)]
Bad(p) == [p EXCEPT !.err = TRUE]
BadIf(b, p) == IF b THEN Bad(p) ELSE p

Grams(p) == { p.gr[i].n : i \in 1..Len(p.gr) }
Toks(p)  == { p.tk[i].n : i \in 1..Len(p.tk) }
GramNamed(p, n) == p.gr[CHOOSE i \in 1..Len(p.gr) : p.gr[i].n = n /\ \A j \in 1..Len(p.gr) : p.gr[j].n = n => i <= j]

FT == [f |-> "T", w |-> "def", n |-> "", par |-> <<>>, cls |-> "", args |-> <<>>]
FR(cl) == [f |-> "R", w |-> "unit", cl |-> cl, alts |-> <<>>, pre |-> <<>>, els |-> <<>>, mode |-> "?", bare |-> "", n |-> 0]
FB == [f |-> "B", w |-> "stmt", st |-> <<>>, x |-> "", v |-> [a |-> "none"]]
FA(op, n) == [f |-> "A", w |-> "lp", op |-> op, n |-> n, args |-> <<>>]
FG(n) == [f |-> "G", w |-> "arg0", n |-> n, args |-> <<>>, x |-> ""]
P0 == [stk |-> <<FT>>, gr |-> <<>>, tk |-> <<>>, err |-> FALSE]

Accepts(p) == Alive(p) /\ Len(p.stk) = 1 /\ TopF(p).w = "def" /\ ~p.err

-------------------------------------------------------------------------
(* abstract trees                                                          *)
Leaf(what, h) == [k |-> "tok", c |-> <<>>, pre |-> <<>>, post |-> <<>>, t |-> what, h |-> h]
Inner(k, c) == [k |-> k, c |-> c, pre |-> <<>>, post |-> <<>>]
Unit(f) ==                 \* the elements read since the last | or opening
  LET u == IF Len(f.els) = 1 THEN f.els[1] ELSE Inner(IF f.mode = "set" THEN "set" ELSE "seq", f.els)
  IN [u EXCEPT !.pre = f.pre \o @]
RuleOf(f) == LET all == Append(f.alts, Unit(f)) IN IF Len(all) = 1 THEN all[1] ELSE Inner("alt", all)
Repeated(e, n, m) ==
  IF n = m /\ n = 1 THEN e
  ELSE IF n = 0 /\ m = 1 THEN Inner("opt", <<e>>)
  ELSE [k |-> "rep", c |-> <<e>>, pre |-> <<>>, post |-> <<>>, n |-> n, m |-> m]
Optional(e) == IF e.k = "seq" /\ e.post = <<>> THEN [Inner("opt", e.c) EXCEPT !.pre = e.pre] ELSE Inner("opt", <<e>>)

(* values                                                                  *)
IsVal(x) == x.k \in {"str", "int", "true", "none", "dv", "dn"}
ValOf(x) == CASE x.k = "str" -> [a |-> "str", s |-> x.v]
              [] x.k = "int" -> [a |-> "int", i |-> x.v]
              [] x.k = "true" -> [a |-> "bool", b |-> TRUE]
              [] x.k = "none" -> [a |-> "none"]
              [] x.k = "dv" -> [a |-> "var", x |-> x.v]
              [] x.k = "dn" -> [a |-> "num", i |-> x.v]

-------------------------------------------------------------------------
(* a term is finished: it joins the elements of the rule being read        *)
Got(p, f, e, bare) == Set(p, [f EXCEPT !.els = Append(@, e), !.w = "after", !.bare = bare])
Last(f) == f.els[Len(f.els)]
SetLast(f, e) == [f EXCEPT !.els = Append(SubSeq(@, 1, Len(@) - 1), e)]

TermStart(p, f, x) ==
  CASE x.k = "str" -> Got(p, f, Leaf([kw |-> x.v], ""), "str")
    [] x.k = "id" -> IF x.v \in Grams(p) THEN Got(p, f, [Inner("ref", <<>>) EXCEPT !.k = "ref"] @@ [g |-> x.v, args |-> <<>>], "gram")
                     ELSE IF x.v \in Toks(p) THEN Got(p, f, Leaf([id |-> x.v], ""), "tok")
                     ELSE SKIP
    [] x.k = "(" -> Push(Set(p, f), FR(")"))
    [] x.k = "{" -> Push(Set(p, f), FR("}"))
    [] x.k \in {"token", "call", "true", "none"} -> SKIP     \* names that are not declared
    [] OTHER -> DEAD

(* a definition is finished                                                *)
Define(p, body) ==
  LET f == p.stk[1]
      dup == f.n \in Grams(p) \/ f.n \in Toks(p) \/ \E i, j \in 1..Len(f.par) : i < j /\ f.par[i].x = f.par[j].x
  IN [p EXCEPT !.stk = <<FT>>, !.gr = Append(@, [n |-> f.n, par |-> f.par, body |-> body]), !.err = @ \/ dup]
Declare(p, f, w) ==
  [p EXCEPT !.stk = <<[FT EXCEPT !.w = w]>>, !.tk = Append(@, [n |-> f.n, cls |-> f.cls, args |-> f.args]),
            !.err = @ \/ f.n \in Toks(p) \/ f.n \in Grams(p)]

CloseRule(p, f) ==
  LET e == RuleOf(f)  q == [p EXCEPT !.stk = Below(p)]  o == TopF(q) IN
  CASE f.cl = ";" -> Define(q, e)
    [] f.cl = ")" -> Got(q, o, e, "")
    [] f.cl = "}" -> Got(q, o, Optional(e), "")

FeedR(p, f, x) ==
  CASE f.w = "unit" -> IF x.k = "<<" THEN Push(p, FB) ELSE TermStart(p, f, x)
    [] f.w = "term" -> TermStart(p, f, x)
    [] f.w = "star" -> IF x.k = "int" THEN
                            Set(BadIf(x.v <= 0, p), [SetLast(f, Repeated(Last(f), x.v, x.v)) EXCEPT !.w = "after", !.bare = ""])
                       ELSE IF x.k = "(" THEN Set(p, [f EXCEPT !.w = "rep1"]) ELSE DEAD
    [] f.w = "rep1" -> IF x.k = "int" THEN Set(p, [f EXCEPT !.w = "rep2", !.n = x.v]) ELSE DEAD
    [] f.w = "rep2" -> IF x.k = ")" THEN Set(BadIf(f.n <= 0, p), [SetLast(f, Repeated(Last(f), f.n, f.n)) EXCEPT !.w = "after", !.bare = ""])
                       ELSE IF x.k = ":" THEN Set(p, [f EXCEPT !.w = "rep3"]) ELSE DEAD
    [] f.w = "rep3" -> IF x.k = "int"
                       THEN LET n == IF f.n < x.v THEN f.n ELSE x.v
                                m == IF f.n < x.v THEN x.v ELSE f.n
                            IN Set(BadIf(n < 0 \/ m = 0, p), [SetLast(f, Repeated(Last(f), n, m)) EXCEPT !.w = "rep4"])
                       ELSE DEAD
    [] f.w = "rep4" -> IF x.k = ")" THEN Set(p, [f EXCEPT !.w = "after", !.bare = ""]) ELSE DEAD
    [] f.w = "help" -> IF x.k = "str" THEN Set(p, [SetLast(f, [Last(f) EXCEPT !.h = x.v]) EXCEPT !.w = "after", !.bare = ""]) ELSE DEAD
    [] f.w \in {"after", "afterblk"} ->
         CASE x.k = "<<" -> Push(p, FB)
           [] x.k = "*" -> IF f.w = "after" THEN Set(p, [f EXCEPT !.w = "star"]) ELSE DEAD
           [] x.k = ":" -> IF f.w = "after" /\ f.bare \in {"str", "tok"} THEN Set(p, [f EXCEPT !.w = "help"])
                           ELSE IF f.w = "after" /\ f.bare = "gram" THEN SKIP ELSE DEAD
           [] x.k = "[" -> IF f.w = "after" /\ f.bare = "gram" THEN Push(p, FG(Last(f).g))
                           ELSE IF f.w = "after" /\ f.bare = "tok" THEN SKIP ELSE DEAD
           [] x.k = "," -> IF f.mode \in {"?", "set"} THEN Set(p, [f EXCEPT !.mode = "set", !.w = "term"]) ELSE DEAD
           [] x.k = "|" -> Set(p, [FR(f.cl) EXCEPT !.alts = Append(f.alts, Unit(f))])
           [] x.k = f.cl -> CloseRule(p, f)
           [] x.k \in {"str", "id", "(", "{"} ->
                IF f.mode = "set" THEN DEAD ELSE TermStart(p, [f EXCEPT !.mode = "seq"], x)
           [] x.k \in {"token", "call", "true", "none"} -> IF f.mode = "set" THEN DEAD ELSE SKIP
           [] OTHER -> DEAD

(* arguments of a grammar reference                                        *)
ParIdx(g, x) == { i \in 1..Len(g.par) : g.par[i].x = x }
ArgsWrong(g, args) ==
  LET npos == { i \in 1..Len(args) : args[i].p = "" }
      named == (1..Len(args)) \ npos IN
  \/ Len(args) > Len(g.par)
  \/ \E i \in npos, j \in named : j < i
  \/ \E j \in named : \/ ParIdx(g, args[j].p) = {}
                      \/ \E k \in ParIdx(g, args[j].p) : k <= Cardinality(npos)
                      \/ \E k \in named : k < j /\ args[k].p = args[j].p
FeedG(p, f, x) ==
  LET add(a) == Set(p, [f EXCEPT !.args = Append(@, a), !.w = "more"])
      done(args) == LET q == [p EXCEPT !.stk = Below(p)]  o == TopF(q)
                    IN Set(BadIf(ArgsWrong(GramNamed(p, f.n), args), q), [SetLast(o, [Last(o) EXCEPT !.args = args]) EXCEPT !.bare = ""])
      pos(x_) == Append(f.args, [p |-> "", v |-> [a |-> "var", x |-> x_]])
  IN CASE f.w \in {"arg0", "arg"} /\ x.k = "dv" -> Set(p, [f EXCEPT !.w = "dv", !.x = x.v])
       [] f.w \in {"arg0", "arg"} /\ IsVal(x) -> add([p |-> "", v |-> ValOf(x)])
       [] f.w = "arg0" /\ x.k = "]" -> done(<<>>)
       [] f.w = "dv" /\ x.k = "=" -> Set(p, [f EXCEPT !.w = "val"])
       [] f.w = "dv" /\ x.k = "," -> Set(p, [f EXCEPT !.args = pos(f.x), !.w = "arg"])
       [] f.w = "dv" /\ x.k = "]" -> done(pos(f.x))
       [] f.w = "val" /\ IsVal(x) -> add([p |-> f.x, v |-> ValOf(x)])
       [] f.w = "more" /\ x.k = "," -> Set(p, [f EXCEPT !.w = "arg"])
       [] f.w = "more" /\ x.k = "]" -> done(f.args)
       [] OTHER -> DEAD

(* actions                                                                 *)
FeedB(p, f, x) ==
  CASE f.w = "stmt" ->
         (CASE x.k = ">>" -> LET q == [p EXCEPT !.stk = Below(p)]  o == TopF(q) IN
                            IF o.w = "unit" THEN Set(q, [o EXCEPT !.pre = @ \o f.st])
                            ELSE Set(q, [SetLast(o, [Last(o) EXCEPT !.post = @ \o f.st]) EXCEPT !.w = "afterblk"])
           [] x.k = "dv" -> Set(p, [f EXCEPT !.w = "eq", !.x = x.v])
           [] x.k = "call" -> Set(p, [f EXCEPT !.w = "name", !.x = ""])
           [] x.k = "id" -> Replace(p, [f EXCEPT !.w = "end", !.x = ""], FA("fn", x.v))
           [] x.k \in {"token", "true", "none"} -> SKIP
           [] OTHER -> DEAD)
    [] f.w = "name" -> IF x.k = "id" THEN Replace(p, [f EXCEPT !.w = "end"], FA("call", x.v)) ELSE IF x.k \in {"call", "true", "none", "token"} THEN SKIP ELSE DEAD
    [] f.w = "eq" -> IF x.k = "=" THEN Set(p, [f EXCEPT !.w = "rhs"]) ELSE DEAD
    [] f.w = "rhs" -> (CASE IsVal(x) -> Set(p, [f EXCEPT !.w = "end", !.v = ValOf(x)])
                        [] x.k = "call" -> Set(p, [f EXCEPT !.w = "name"])
                        [] x.k = "id" -> Replace(p, [f EXCEPT !.w = "end"], FA("fn", x.v))
                        [] x.k = "token" -> SKIP
                        [] OTHER -> DEAD)
    [] f.w = "end" -> IF x.k = ";"
                      THEN LET s == IF f.x # "" THEN [o |-> "set", x |-> f.x, r |-> f.v]
                                    ELSE [o |-> f.v.a, f |-> f.v.f, args |-> f.v.args]
                           IN Set(p, [FB EXCEPT !.st = Append(f.st, s)])
                      ELSE DEAD
(* a call is finished: it is a value of the block or of the call around it *)
FeedA(p, f, x) ==
  LET val == [a |-> f.op, f |-> f.n, args |-> f.args]
      done == LET q == [p EXCEPT !.stk = Below(p)]  o == TopF(q) IN
              IF o.f = "B" THEN Set(q, [o EXCEPT !.v = val]) ELSE Set(q, [o EXCEPT !.args = Append(@, val)])
  IN CASE f.w = "lp" -> IF x.k = "(" THEN Set(p, [f EXCEPT !.w = "arg0"]) ELSE DEAD
       [] f.w = "cname" -> IF x.k = "id" THEN Replace(p, [f EXCEPT !.w = "more"], FA("call", x.v)) ELSE IF x.k \in {"call", "true", "none", "token"} THEN SKIP ELSE DEAD
       [] f.w \in {"arg0", "arg"} ->
            (CASE IsVal(x) -> Set(p, [f EXCEPT !.args = Append(@, ValOf(x)), !.w = "more"])
              [] x.k = ")" /\ f.w = "arg0" -> done
              [] x.k = "call" -> Set(p, [f EXCEPT !.w = "cname"])
              [] x.k = "id" -> Replace(p, [f EXCEPT !.w = "more"], FA("fn", x.v))
              [] x.k = "token" -> SKIP
              [] OTHER -> DEAD)
       [] f.w = "more" -> CASE x.k = "," -> Set(p, [f EXCEPT !.w = "arg"])
                            [] x.k = ")" -> done
                            [] OTHER -> DEAD

(* definitions                                                             *)
NoPar(x) == [x |-> x, d |-> [a |-> "none"], has |-> FALSE]
FeedT(p, f, x) ==
  LET go(w) == Set(p, [f EXCEPT !.w = w])
      addpar == Set(p, [f EXCEPT !.par = Append(@, NoPar(x.v)), !.w = "parA"])
  IN CASE f.w = "def" -> IF x.k = "id" THEN Set(p, [f EXCEPT !.w = "name", !.n = x.v]) ELSE IF x.k = "token" THEN go("tok1")
                         ELSE IF x.k \in {"true", "none", "call"} THEN SKIP ELSE DEAD
       [] f.w = "name" -> IF x.k = "[" THEN go("par0") ELSE IF x.k = ":" THEN Push(go("rule"), FR(";")) ELSE DEAD
       [] f.w = "par0" -> IF x.k = "dv" THEN addpar ELSE IF x.k = "]" THEN go("colon") ELSE DEAD
       [] f.w = "par" -> IF x.k = "dv" THEN addpar ELSE DEAD
       [] f.w = "parA" -> IF x.k = "=" THEN go("parD") ELSE IF x.k = "," THEN go("par") ELSE IF x.k = "]" THEN go("colon") ELSE DEAD
       [] f.w = "parD" -> IF x.k \in {"str", "int"}
                          THEN Set(p, [f EXCEPT !.par[Len(f.par)] = [@ EXCEPT !.d = ValOf(x), !.has = TRUE], !.w = "parB"])
                          ELSE IF x.k \in {"dv", "true", "none"} THEN SKIP ELSE DEAD
       [] f.w = "parB" -> IF x.k = "," THEN go("par") ELSE IF x.k = "]" THEN go("colon") ELSE DEAD
       [] f.w = "colon" -> IF x.k = ":" THEN Push(go("rule"), FR(";")) ELSE DEAD
       [] f.w \in {"tok", "tok1"} ->
            IF x.k = "id" THEN Set(p, [FT EXCEPT !.w = "cls", !.n = x.v])
            ELSE IF x.k \in {"token", "true", "none", "call"} \/ (f.w = "tok1" /\ x.k \in {":", "["}) THEN SKIP   \* a grammar called token
            ELSE DEAD
       [] f.w = "cls" -> (CASE x.k = "cls" -> Set(p, [f EXCEPT !.w = "clsl", !.cls = x.v])
                           [] x.k = "," -> Declare(p, [f EXCEPT !.cls = "CliToken"], "tok")
                           [] x.k = ";" -> Declare(p, [f EXCEPT !.cls = "CliToken"], "def")
                           [] x.k \in {"id", "token", "true", "none", "call"} -> SKIP      \* no such class
                           [] OTHER -> DEAD)
       [] f.w = "clsl" -> IF x.k = "(" THEN go("cargs0") ELSE DEAD
       [] f.w \in {"cargs0", "cargs"} ->
            (CASE x.k = "str" -> IF f.cls = "StringToken" THEN SKIP ELSE Set(p, [f EXCEPT !.args = Append(@, x.v), !.w = "cargsA"])
              [] x.k \in {"int", "true", "none", "id", "call", "token"} -> SKIP                     \* not an option
              [] x.k = ")" -> IF f.w = "cargs" THEN DEAD ELSE IF f.cls # "StringToken" THEN SKIP ELSE go("cend")
              [] OTHER -> DEAD)
       [] f.w = "cargsA" -> IF x.k = "," THEN go("cargs") ELSE IF x.k = ")" THEN go("cend") ELSE DEAD
       [] f.w = "cend" -> IF x.k = "," THEN Declare(p, f, "tok") ELSE IF x.k = ";" THEN Declare(p, f, "def") ELSE DEAD

Feed(p, x) == LET f == TopF(p) IN
  IF x.k = "cls" /\ ~(f.f = "T" /\ f.w = "cls") THEN SKIP
  ELSE CASE f.f = "T" -> FeedT(p, f, x)
         [] f.f = "R" -> FeedR(p, f, x)
         [] f.f = "G" -> FeedG(p, f, x)
         [] f.f = "B" -> FeedB(p, f, x)
         [] f.f = "A" -> FeedA(p, f, x)
RECURSIVE FeedAll(_, _, _)
FeedAll(p, s, i) == IF i > Len(s) \/ ~Alive(p) THEN p ELSE FeedAll(Feed(p, s[i]), s, i + 1)

-------------------------------------------------------------------------
(* the shortest way to end a text                                          *)
Y(k, v) == [k |-> k, v |-> v]
Want(f) ==
  CASE f.f = "T" -> (CASE f.w \in {"name", "colon"} -> Y(":", "")
                      [] f.w \in {"par0", "parA", "parB"} -> Y("]", "")
                      [] f.w = "par" -> Y("dv", "$z")
                      [] f.w = "parD" -> Y("int", 1)
                      [] f.w \in {"tok", "tok1"} -> Y("id", "Z")
                      [] f.w \in {"cls", "cend"} -> Y(";", "")
                      [] f.w = "clsl" -> Y("(", "")
                      [] f.w \in {"cargs0", "cargs"} -> IF f.cls = "StringToken" THEN Y(")", "") ELSE Y("str", "o")
                      [] f.w = "cargsA" -> Y(")", ""))
    [] f.f = "R" -> (CASE f.w \in {"unit", "term", "help"} -> Y("str", "e")
                      [] f.w \in {"star", "rep1", "rep3"} -> Y("int", 2)
                      [] f.w \in {"rep2", "rep4"} -> Y(")", "")
                      [] OTHER -> Y(f.cl, ""))
    [] f.f = "G" -> IF f.w \in {"arg0", "dv", "more"} THEN Y("]", "") ELSE Y("int", 1)
    [] f.f = "B" -> (CASE f.w = "stmt" -> Y(">>", "") [] f.w = "eq" -> Y("=", "") [] f.w = "rhs" -> Y("int", 1)
                      [] f.w = "name" -> Y("id", "rec") [] f.w = "end" -> Y(";", ""))
    [] f.f = "A" -> CASE f.w = "lp" -> Y("(", "") [] f.w = "arg" -> Y("int", 1) [] f.w = "cname" -> Y("id", "rec")
                      [] OTHER -> Y(")", "")
RECURSIVE Closing(_, _)
Closing(p, n) == IF n = 0 \/ ~Alive(p) \/ (Len(p.stk) = 1 /\ TopF(p).w = "def") THEN <<>>
                 ELSE <<Want(TopF(p))>> \o Closing(Feed(p, Want(TopF(p))), n - 1)
=======================================================================
