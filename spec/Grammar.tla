---------------------------- MODULE Grammar ---------------------------
(* The language of a grammar specification.                                *)
(*                                                                         *)
(* Node kinds:  tok (a token), seq (in this order), opt (braces: all or    *)
(* nothing), alt (one of), set (every member once, in any order; members   *)
(* that may be empty may be left out), rep (n to m times), ref (a named    *)
(* grammar).                                                                *)
(*                                                                         *)
(* Two definitions of the language are given: the operational walker       *)
(* (First / Next on stacks of open nodes, the shape of the implementation) *)
(* and the declarative Derivations; MCCore checks that they agree.         *)
EXTENDS Naturals, Sequences, FiniteSets, Corpus, TokenTypes

Min2(a, b) == IF a < b THEN a ELSE b
Max2(a, b) == IF a > b THEN a ELSE b

RECURSIVE Nullable(_)
Nullable(x) ==
  LET nd == Node[x] IN
  CASE nd.k = "tok" -> FALSE
    [] nd.k = "opt" -> TRUE
    [] nd.k \in {"seq", "set"} -> \A i \in 1..Len(nd.c) : Nullable(nd.c[i])
    [] nd.k = "alt" -> \E i \in 1..Len(nd.c) : Nullable(nd.c[i])
    [] nd.k = "rep" -> nd.n = 0 \/ Nullable(nd.c[1])
    [] nd.k = "ref" -> Nullable(nd.c[1])
(* TLC works these two tables out once, before it starts (it would not      *)
(* keep a definition that rests on recursive operators)                     *)
ASSUME TLCSet(101, TLCEval([ x \in 1..Len(Node) |-> Nullable(x) ]))
NullableTab == TLCGet(101)

(* an open node: <<node, current child / iteration, members already used>> *)
Open(x, cur, used) == <<x, cur, used>>
FNode(f) == f[1]
FCur(f)  == f[2]
FUsed(f) == f[3]

(* repetition: the rounds are used in order, so that a round with no words *)
(* can only be one of the last ones                                        *)
RepNext(nd, cur) == IF cur < nd.m THEN {cur + 1} ELSE {}

(* children in which an open node can continue, with its new state         *)
Continuations(f) ==
  LET nd == Node[FNode(f)]  cur == FCur(f) IN
  CASE nd.k \in {"seq", "opt"} ->
         { <<Open(FNode(f), j, {}), nd.c[j]>> :
             j \in { j \in (cur + 1)..Len(nd.c) : \A i \in (cur + 1)..(j - 1) : NullableTab[nd.c[i]] } }
    [] nd.k = "set" ->
         { <<Open(FNode(f), j, FUsed(f) \cup {j}), nd.c[j]>> : j \in (1..Len(nd.c)) \ FUsed(f) }
    [] nd.k = "rep" ->
         { <<Open(FNode(f), k, {}), nd.c[1]>> : k \in RepNext(nd, cur) }
    [] nd.k = "alt" -> IF cur = 0 THEN { <<Open(FNode(f), j, {}), nd.c[j]>> : j \in 1..Len(nd.c) } ELSE {}
    [] nd.k = "ref" -> IF cur = 0 THEN { <<Open(FNode(f), 1, {}), nd.c[1]>> } ELSE {}
    [] nd.k = "tok" -> {}

CanClose(f) ==
  LET nd == Node[FNode(f)]  cur == FCur(f) IN
  CASE nd.k \in {"seq", "opt"} -> \A i \in (cur + 1)..Len(nd.c) : NullableTab[nd.c[i]]
    [] nd.k = "set" -> \A i \in (1..Len(nd.c)) \ FUsed(f) : NullableTab[nd.c[i]]
    [] nd.k = "rep" -> cur >= nd.n \/ NullableTab[nd.c[1]]
    [] OTHER -> TRUE

(* the stacks of open nodes with which the first token of x can be matched *)
RECURSIVE First(_)
First(x) ==
  IF Node[x].k = "tok" THEN { <<Open(x, 0, {})>> }
  ELSE UNION { { <<c[1]>> \o s : s \in First(c[2]) } : c \in Continuations(Open(x, 0, {})) }
ASSUME TLCSet(102, TLCEval([ x \in 1..Len(Node) |-> First(x) ]))
FirstTab == TLCGet(102)

(* the stacks reachable after the token at the top of stack st             *)
RECURSIVE NextAt(_, _)
NextAt(st, d) ==
  IF d = 0 THEN {}
  ELSE UNION { { SubSeq(st, 1, d - 1) \o <<c[1]>> \o s : s \in FirstTab[c[2]] } : c \in Continuations(st[d]) }
       \cup (IF CanClose(st[d]) THEN NextAt(st, d - 1) ELSE {})
Next_(st) == NextAt(st, Len(st) - 1)
CanEnd(st) == \A d \in 1..(Len(st) - 1) : CanClose(st[d])

(* the token a stack stands for                                            *)
TokOf(st) == Tok[Node[FNode(st[Len(st)])].t]
(* what identifies an occurrence: the child chosen at every level          *)
PathOf(st) == [ d \in 1..Len(st) |-> <<FNode(st[d]), FCur(st[d])>> ]

-------------------------------------------------------------------------
(* Declarative definition: the set of <<end, leaf paths>> with which node  *)
(* x derives the words i+1..end of a line; Fits(tokendef, word) says which *)
(* words a token stands for.                                                *)
RECURSIVE Derive(_, _, _, _)
RECURSIVE DeriveSeq(_, _, _, _, _)
RECURSIVE DeriveSet(_, _, _, _, _)
RECURSIVE DeriveRep(_, _, _, _, _)
Derive(x, path, line, i) ==
  LET nd == Node[x] IN
  CASE nd.k = "tok" ->
         IF i < Len(line) /\ Fits(Tok[nd.t], line[i + 1]) THEN { <<i + 1, <<path \o << <<x, 0>> >> >> >> } ELSE {}
    [] nd.k = "seq" -> DeriveSeq(x, path, line, i, 1)
    [] nd.k = "opt" -> { <<i, <<>> >> } \cup { r \in DeriveSeq(x, path, line, i, 1) : r[1] > i }
    [] nd.k = "alt" -> UNION { Derive(nd.c[j], path \o << <<x, j>> >>, line, i) : j \in 1..Len(nd.c) }
    [] nd.k = "ref" -> Derive(nd.c[1], path \o << <<x, 1>> >>, line, i)
    [] nd.k = "set" -> DeriveSet(x, path, line, i, 1..Len(nd.c))
    [] nd.k = "rep" -> DeriveRep(x, path, line, i, 1)
DeriveSeq(x, path, line, i, j) ==
  IF j > Len(Node[x].c) THEN { <<i, <<>> >> }
  ELSE UNION { { <<b[1], a[2] \o b[2]>> : b \in DeriveSeq(x, path, line, a[1], j + 1) }
             : a \in Derive(Node[x].c[j], path \o << <<x, j>> >>, line, i) }
DeriveSet(x, path, line, i, rest) ==
  (IF \A j \in rest : Nullable(Node[x].c[j]) THEN { <<i, <<>> >> } ELSE {})
  \cup UNION { UNION { { <<b[1], a[2] \o b[2]>> : b \in DeriveSet(x, path, line, a[1], rest \ {j}) }
                     : a \in { a \in Derive(Node[x].c[j], path \o << <<x, j>> >>, line, i) : a[1] > i } }
             : j \in rest }
DeriveRep(x, path, line, i, k) ==   \* k = round about to start
  LET nd == Node[x] IN
  (IF k > nd.n \/ Nullable(nd.c[1]) THEN { <<i, <<>> >> } ELSE {})
  \cup (IF k > nd.m THEN {}
        ELSE UNION { { <<b[1], a[2] \o b[2]>> : b \in DeriveRep(x, path, line, a[1], k + 1) }
                   : a \in { a \in Derive(nd.c[1], path \o << <<x, k>> >>, line, i) : a[1] > i } })
=======================================================================
