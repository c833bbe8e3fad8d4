----------------------------- MODULE Exec -----------------------------
(* Running the actions of the one derivation a line was resolved to.       *)
(*                                                                         *)
(* Between two words the elements that are finished are left, innermost    *)
(* first, then the elements that begin are entered, outermost first.       *)
(* Actions written before an element run when it is entered, those after   *)
(* it when it is left.                                                     *)
(*                                                                         *)
(* State of the interpreter X:                                             *)
(*   fr   open frames, [id, toks, nums, vars]; frame 1 is the root grammar *)
(*   loc  variable cells (values);  heap  lists, sets and dictionaries     *)
(*   log  the observable calls in order                                    *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, Matching

RefV(h) == [t |-> "ref", h |-> h]
Obj(k, e) == [k |-> k, e |-> e]

(* snapshot of a value, as an observer outside sees it; a list may come to *)
(* contain itself, so the observer looks only so far down                   *)
RECURSIVE DeepTo(_, _, _)
DeepTo(X, v, n) ==
  IF v.t # "ref" THEN v
  ELSE IF n = 0 THEN [t |-> "deep"]
  ELSE LET o == X.heap[v.h] IN
       IF o.k = "dict" THEN [t |-> "dict", e |-> [ i \in 1..Len(o.e) |-> << DeepTo(X, o.e[i][1], n - 1), DeepTo(X, o.e[i][2], n - 1) >> ]]
       ELSE [t |-> o.k, e |-> [ i \in 1..Len(o.e) |-> DeepTo(X, o.e[i], n - 1) ]]
Deep(X, v) == DeepTo(X, v, 4)

(* variables ------------------------------------------------------------ *)
Has(f, x) == x \in DOMAIN f
Put(f, x, v) == [ y \in DOMAIN f \cup {x} |-> IF y = x THEN v ELSE f[y] ]
NewCell(X, v) == [X EXCEPT !.loc = Append(@, v)]      \* its number is Len(loc)
NewObj(X, o) == [X EXCEPT !.heap = Append(@, o)]
IsGram(f) == (f.id = 0) \/ (Node[f.id].k = "ref")
RECURSIVE GramAt(_, _)
GramAt(X, d) == IF IsGram(X.fr[d]) THEN d ELSE GramAt(X, d - 1)

(* the cell an argument names, or 0                                        *)
CellOf(X, a) ==
  LET d == Len(X.fr) IN
  CASE a.a = "num" -> IF Has(X.fr[d].nums, a.i) THEN X.fr[d].nums[a.i] ELSE 0
    [] a.a = "var" -> LET g == GramAt(X, d) IN IF Has(X.fr[g].vars, a.x) THEN X.fr[g].vars[a.x] ELSE 0
    [] OTHER -> 0

IsNum(v) == v.t \in {"int", "bool"}         \* truth values count as 0 and 1
NumOf(v) == IF v.t = "int" THEN v.i ELSE IF v.b THEN 1 ELSE 0
Plus(X, v, w) ==       \* [x, v]: addition leaves v alone when it cannot be done
  IF IsNum(v) /\ IsNum(w) THEN [x |-> X, v |-> IntV(NumOf(v) + NumOf(w))]
  ELSE IF v.t = "str" /\ w.t = "str" THEN [x |-> X, v |-> StrV(v.s \o w.s)]
  ELSE IF v.t = "ref" /\ w.t = "ref" /\ X.heap[v.h].k = "list" /\ X.heap[w.h].k = "list"
       THEN LET Y == NewObj(X, Obj("list", X.heap[v.h].e \o X.heap[w.h].e)) IN [x |-> Y, v |-> RefV(Len(Y.heap))]
  ELSE [x |-> X, v |-> v]
RECURSIVE PlusAll(_, _, _, _)
PlusAll(X, v, args, i) == IF i > Len(args) THEN [x |-> X, v |-> v]
                          ELSE LET r == Plus(X, v, args[i]) IN PlusAll(r.x, r.v, args, i + 1)
PyEq(v, w) == v = w \/ (IsNum(v) /\ IsNum(w) /\ NumOf(v) = NumOf(w))
InSeq(v, s) == \E i \in 1..Len(s) : PyEq(s[i], v)
Hashable(v) == v.t # "ref"
RECURSIVE AddAll(_, _, _)
AddAll(s, args, i) == IF i > Len(args) THEN s
                      ELSE AddAll(IF InSeq(args[i], s) THEN s ELSE Append(s, args[i]), args, i + 1)
PutPair(s, k, v) == IF \E i \in 1..Len(s) : PyEq(s[i][1], k)
                    THEN [ i \in 1..Len(s) |-> IF PyEq(s[i][1], k) THEN <<s[i][1], v>> ELSE s[i] ]
                    ELSE Append(s, <<k, v>>)
PyText(v) == CASE v.t = "str" -> v.s [] v.t = "int" -> ToString(v.i)
               [] v.t = "bool" -> (IF v.b THEN "True" ELSE "False") [] v.t = "none" -> "None" [] OTHER -> "?"
RECURSIVE Joined(_, _)
Joined(args, i) == IF i > Len(args) THEN ""
                   ELSE (IF i = 1 THEN "" ELSE " ") \o PyText(args[i]) \o Joined(args, i + 1)
Emit(X, f, args) == [X EXCEPT !.log = Append(@, [f |-> f, a |-> [ i \in 1..Len(args) |-> Deep(X, args[i]) ]])]
Res(X, v) == [x |-> X, v |-> v]

(* the functions available inside actions; a call that cannot be carried  *)
(* out (a list as a member of a set or as a key) yields nothing             *)
Inline(X, f, args) ==
  CASE f = "list"  -> LET Y == NewObj(X, Obj("list", args)) IN Res(Y, RefV(Len(Y.heap)))
    [] f = "set"   -> IF \E i \in 1..Len(args) : ~Hashable(args[i]) THEN Res(X, NoneV)
                      ELSE LET Y == NewObj(X, Obj("set", AddAll(<<>>, args, 1))) IN Res(Y, RefV(Len(Y.heap)))
    [] f = "dict"  -> LET Y == NewObj(X, Obj("dict", <<>>)) IN Res(Y, RefV(Len(Y.heap)))
    [] f = "append" ->
          IF args = <<>> THEN Res(X, NoneV)
          ELSE LET v == args[1]  more == Tail(args) IN
          IF v.t # "ref" THEN Res(X, v)
          ELSE IF X.heap[v.h].k = "list" THEN Res([X EXCEPT !.heap[v.h].e = @ \o more], v)
          ELSE IF X.heap[v.h].k = "set"
               THEN LET bad == { i \in 1..Len(more) : ~Hashable(more[i]) }
                        upto == IF bad = {} THEN Len(more) ELSE (CHOOSE i \in bad : \A j \in bad : i <= j) - 1
                    IN Res([X EXCEPT !.heap[v.h].e = AddAll(@, SubSeq(more, 1, upto), 1)], IF bad = {} THEN v ELSE NoneV)
          ELSE Res(X, v)
    [] f = "update" -> IF Len(args) <= 2 THEN Res(X, NoneV)
          ELSE LET v == args[1] IN
               IF v.t = "ref" /\ X.heap[v.h].k = "dict"
               THEN IF Hashable(args[2]) THEN Res([X EXCEPT !.heap[v.h].e = PutPair(@, args[2], args[3])], v)
                    ELSE Res(X, NoneV)
               ELSE Res(X, v)
    [] f = "inc" -> Res(X, IF args = <<>> THEN NoneV ELSE IF IsNum(args[1]) THEN IntV(NumOf(args[1]) + 1) ELSE args[1])
    [] f = "dec" -> Res(X, IF args = <<>> THEN NoneV ELSE IF IsNum(args[1]) THEN IntV(NumOf(args[1]) - 1) ELSE args[1])
    [] f = "add" -> IF args = <<>> THEN Res(X, NoneV) ELSE PlusAll(X, args[1], args, 2)
    [] f = "print" -> Res([X EXCEPT !.log = Append(@, [f |-> "print", a |-> << StrV(Joined(args, 1)) >>])], NoneV)
    [] OTHER -> Res(X, NoneV)

(* the functions of the embedding program: ret returns its argument, bad   *)
(* raises, nofn does not exist, the others return nothing                  *)
External(X, f, args) ==
  CASE f \in {"ret", "aret"} -> LET Y == Emit(X, f, args) IN Res(Y, IF args = <<>> THEN NoneV ELSE args[1])
    [] f = "nofn" -> Res(X, NoneV)
    [] OTHER -> Res(Emit(X, f, args), NoneV)

(* string values are decoded once, where the text was read: evaluating a   *)
(* value never changes it                                                   *)
RECURSIVE Eval(_, _)
RECURSIVE EvalAll(_, _, _, _)
Eval(X, a) ==
  CASE a.a \in {"num", "var"} -> Res(X, IF CellOf(X, a) = 0 THEN NoneV ELSE X.loc[CellOf(X, a)])
    [] a.a = "int" -> Res(X, IntV(a.i))
    [] a.a = "str" -> Res(X, StrV(a.s))
    [] a.a = "bool" -> Res(X, BoolV(a.b))
    [] a.a = "none" -> Res(X, NoneV)
    [] a.a = "fn" -> LET r == EvalAll(X, a.args, 1, <<>>) IN Inline(r.x, a.f, r.v)
    [] a.a = "call" -> LET r == EvalAll(X, a.args, 1, <<>>) IN External(r.x, a.f, r.v)
EvalAll(X, args, i, acc) ==
  IF i > Len(args) THEN Res(X, acc)
  ELSE LET r == Eval(X, args[i]) IN EvalAll(r.x, args, i + 1, Append(acc, r.v))

Stmt(X, s) ==
  IF s.o = "set"
  THEN LET g == GramAt(X, Len(X.fr))
           Y == IF Has(X.fr[g].vars, s.x) THEN X
                ELSE LET Z == NewCell(X, NoneV) IN [Z EXCEPT !.fr[g].vars = Put(@, s.x, Len(Z.loc))]
           r == Eval(Y, s.r)
       IN [r.x EXCEPT !.loc[Y.fr[g].vars[s.x]] = r.v]
  ELSE LET r == EvalAll(X, s.args, 1, <<>>)
       IN (IF s.o = "call" THEN External(r.x, s.f, r.v) ELSE Inline(r.x, s.f, r.v)).x
RECURSIVE Block(_, _, _)
Block(X, ss, i) == IF i > Len(ss) THEN X ELSE Block(Stmt(X, ss[i]), ss, i + 1)

(* parameters: positional arguments first, then by name; what is missing   *)
(* takes its default; an argument that names an existing variable shares it *)
ArgFor(nd, i) ==   \* the argument of parameter i, or 0
  LET named == { j \in 1..Len(nd.args) : nd.args[j].p = nd.par[i].x }
      npos  == Cardinality({ j \in 1..Len(nd.args) : nd.args[j].p = "" })
  IN IF i <= npos THEN i ELSE IF named # {} THEN CHOOSE j \in named : TRUE ELSE 0
RECURSIVE BindParams(_, _, _, _, _)
BindParams(X, Y, nd, i, vars) ==   \* cells are looked up in X, the caller's state
  IF i > Len(nd.par) THEN [x |-> Y, vars |-> vars]
  ELSE LET j == ArgFor(nd, i)
           c == IF j = 0 THEN 0 ELSE CellOf(X, nd.args[j].v)
           v == IF j = 0 THEN Eval(X, nd.par[i].d).v
                ELSE IF c # 0 THEN NoneV ELSE Eval(X, nd.args[j].v).v
       IN IF c # 0 THEN BindParams(X, Y, nd, i + 1, Put(vars, nd.par[i].x, c))
          ELSE LET Z == NewCell(Y, v) IN BindParams(X, Z, nd, i + 1, Put(vars, nd.par[i].x, Len(Z.loc)))

NoVars == [ x \in {} |-> 0 ]
Enter(X, f) ==
  LET nd == Node[FNode(f)]
      X1 == Block(X, nd.pre, 1)
      b  == IF nd.k = "ref" THEN BindParams(X1, X1, nd, 1, NoVars) ELSE [x |-> X1, vars |-> NoVars]
  IN [b.x EXCEPT !.fr = Append(@, [id |-> FNode(f), toks |-> <<>>, nums |-> NoVars, vars |-> b.vars])]

Exit(X, pos) ==        \* pos: where the element stands in its parent
  LET d  == Len(X.fr)
      top == X.fr[d]
      X1 == IF Len(top.toks) = 1 THEN NewCell(X, top.toks[1])
            ELSE LET Y == NewObj(X, Obj("list", top.toks)) IN NewCell(Y, RefV(Len(Y.heap)))
      X2 == [X1 EXCEPT !.fr = [SubSeq(@, 1, d - 1) EXCEPT ![d - 1].nums = Put(@, pos, Len(X1.loc))]]
  IN Block(X2, Node[top.id].post, 1)

Feed(X, v) == [X EXCEPT !.fr = [ i \in 1..Len(@) |-> [@[i] EXCEPT !.toks = Append(@, v)] ]]

(* position of the child under frame f (the root grammar has one child)    *)
PosIn(st, d) == IF d = 1 THEN 1
                ELSE LET f == st[d - 1] IN
                     IF Node[FNode(f)].k \in {"seq", "opt", "set"} THEN FCur(f) ELSE 1

RECURSIVE EnterTo(_, _, _)
EnterTo(X, st, d) == IF d > Len(st) THEN X ELSE EnterTo(Enter(X, st[d]), st, d + 1)
RECURSIVE ExitTo(_, _, _)
ExitTo(X, st, keep) == IF Len(X.fr) - 1 <= keep THEN X
                       ELSE ExitTo(Exit(X, PosIn(st, Len(X.fr) - 1)), st, keep)

(* number of open elements two consecutive words have in common            *)
Shared(a, b) == LET S == { d \in 1..Min2(Len(a), Len(b)) :
                             d < Len(a) /\ \A e \in 1..(d - 1) : FNode(a[e]) = FNode(b[e]) /\ FCur(a[e]) = FCur(b[e]) }
                IN IF S = {} THEN 0 ELSE CHOOSE d \in S : \A e \in S : e <= d

RECURSIVE Run(_, _, _, _)
Run(X, cand, vals, i) ==
  IF i > Len(cand) THEN X
  ELSE LET st == cand[i]
           X1 == EnterTo(X, st, Len(X.fr))
           X2 == Feed(X1, vals[i])
           keep == IF i = Len(cand) THEN 0 ELSE Shared(st, cand[i + 1])
       IN Run(ExitTo(X2, st, keep), cand, vals, i + 1)

(* the root grammar's parameters are cells the caller can read back        *)
RECURSIVE RootVars(_, _, _, _)
RootVars(X, rt, i, vars) ==
  IF i > Len(rt.par) THEN [X EXCEPT !.fr = << [id |-> 0, toks |-> <<>>, nums |-> NoVars, vars |-> vars] >>]
  ELSE LET v == IF i <= Len(rt.args) THEN Eval(X, rt.args[i]).v ELSE Eval(X, rt.par[i].d).v
           Z == NewCell(X, v)
       IN RootVars(Z, rt, i + 1, Put(vars, rt.par[i].x, Len(Z.loc)))
X0 == [fr |-> <<>>, loc |-> <<>>, heap |-> <<>>, log |-> <<>>]

Execute(rt, cand, line) ==
  LET X == RootVars(X0, rt, 1, NoVars)
      vals == [ i \in 1..Len(line) |-> ValueOf(TokOf(cand[i]), line[i]) ]
      Y == Run(X, cand, vals, 1)
  IN [ log |-> Y.log, vals |-> vals,
       out |-> [ i \in 1..Len(rt.args) |-> Deep(Y, Y.loc[Y.fr[1].vars[rt.par[i].x]]) ] ]
=======================================================================
