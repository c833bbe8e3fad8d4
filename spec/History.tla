---------------------------- MODULE History ---------------------------
(* Two interfaces over one compiled specification, used for a long time.   *)
(*                                                                         *)
(* Each keeps a stack of entered grammars and a table of token values it   *)
(* has already worked out (emptied when it grows past its size).  They     *)
(* execute lines, one at a time or both at once, answer dry runs, enter    *)
(* and leave grammars.  Whatever happened before, a line does and offers   *)
(* what it does in a fresh interface: Fresh[r][i] below is computed from   *)
(* the grammar and the line alone, and hist says which of them is due.     *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC, Json, Exec

Group == Corpus.group      \* [name, roots]: what each specification exposes
Depth == Corpus.depth
Sizes == { Corpus.sizes[i] : i \in 1..Len(Corpus.sizes) }

VARIABLES s,         \* the specification in use
          size,      \* size of the tables
          stack,     \* per interface: the grammars entered, innermost last
          cache,     \* per interface: <<token, word>> -> value
          hist       \* what was done, and to which line
vars == <<s, size, stack, cache, hist>>
Side == 1..2

-------------------------------------------------------------------------
(* what a line means to an interface that never saw another one            *)
RECURSIVE Walk(_, _, _, _)      \* [st, prev, seen]
Walk(x, line, i, w) ==
  IF i > Len(line) \/ w.st.vague \/ w.st.cands = {} THEN w
  ELSE LET ch == UNION { Choices(x, cd) : cd \in w.st.cands }
       IN Walk(x, line, i + 1, [ st |-> Step(x, w.st.cands, line[i], FALSE), prev |-> w.st.cands,
                                 n |-> i,
                                 seen |-> w.seen \cup { <<Node[FNode(c[Len(c)])].t, line[i]>> : c \in ch } ])
FreshOf(r, line) ==
  LET rt == Root[r]  x == rt.node
      w  == Walk(x, line, 1, [st |-> [cands |-> {<<>>}, vague |-> FALSE], prev |-> {}, n |-> 0, seen |-> {}])
      st == IF w.n < Len(line) THEN [cands |-> {}, vague |-> FALSE] ELSE w.st
      v  == Outcome(st, line)
      typing == IF w.n < Len(line) THEN {} ELSE Step(x, w.prev, line[Len(line)], TRUE).cands
      e  == IF v = "success" THEN Execute(rt, CHOOSE cd \in Winners(st.cands, line) : TRUE, line)
            ELSE [log |-> <<>>, vals |-> <<>>, out |-> <<>>]
  IN [ g |-> rt.name, w |-> line, r |-> v, log |-> e.log, vals |-> e.vals, out |-> e.out,
       nx |-> IF st.vague \/ st.cands = {} THEN {} ELSE OffersAfter(x, st.cands, line),
       ty |-> OffersFor(typing, line[Len(line)]),
       seen |-> w.seen ]
ASSUME TLCSet(103, TLCEval([ r \in 1..Len(Root) |-> [ i \in 1..Len(Root[r].lines) |-> FreshOf(r, Root[r].lines[i]) ] ]))
Fresh == TLCGet(103)

(* every value a table may ever hold, worked out from the words alone      *)
Keys == UNION { UNION { Fresh[r][i].seen : i \in DOMAIN Fresh[r] } : r \in DOMAIN Fresh }
ASSUME TLCSet(104, TLCEval([ key \in Keys |-> ValueOf(Tok[key[1]], key[2]) ]))
True_ == TLCGet(104)

-------------------------------------------------------------------------
Top(k) == stack[k][Len(stack[k])]
Lines(k) == 1..Len(Root[Top(k)].lines)

(* values come from the table when they are there                          *)
Value(k, key) == IF key \in DOMAIN cache[k] THEN cache[k][key] ELSE True_[key]
Learn(k, r, i) ==
  LET d == DOMAIN cache[k] \cup Fresh[r][i].seen
  IN IF Cardinality(d) > size THEN [ x \in {} |-> NullV ] ELSE [ key \in d |-> Value(k, key) ]

Do(op) == /\ Len(hist) < Depth
          /\ hist' = Append(hist, op)
          /\ UNCHANGED <<s, size>>

Init == /\ s \in 1..Len(Group)
        /\ size \in Sizes
        /\ stack = [ k \in Side |-> << Group[s].roots[1] >> ]
        /\ cache = [ k \in Side |-> [ x \in {} |-> NullV ] ]
        /\ hist = <<>>

Execute1(k, i) == /\ Do([o |-> "exec", k |-> k, r |-> Top(k), i |-> i])
                  /\ cache' = [cache EXCEPT ![k] = Learn(k, Top(k), i)]
                  /\ UNCHANGED stack
Suggest(k, i, done) == /\ Do([o |-> IF done THEN "next" ELSE "type", k |-> k, r |-> Top(k), i |-> i])
                       /\ cache' = [cache EXCEPT ![k] = Learn(k, Top(k), i)]
                       /\ UNCHANGED stack
Both(i, j) == /\ Do([o |-> "both", k |-> 1, r |-> Top(1), i |-> i, r2 |-> Top(2), j |-> j])
              /\ cache' = [ k \in Side |-> IF k = 1 THEN Learn(1, Top(1), i) ELSE Learn(2, Top(2), j) ]
              /\ UNCHANGED stack
EnterG(k, r) == /\ Do([o |-> "enter", k |-> k, r |-> r])
                /\ Len(stack[k]) < 4
                /\ stack' = [stack EXCEPT ![k] = Append(@, r)]
                /\ UNCHANGED cache
LeaveG(k) == /\ Do([o |-> "leave", k |-> k])
             /\ Len(stack[k]) > 1
             /\ stack' = [stack EXCEPT ![k] = SubSeq(@, 1, Len(@) - 1)]
             /\ UNCHANGED cache
Next == \/ \E k \in Side : \/ \E i \in Lines(k) : \/ Execute1(k, i)
                                                  \/ \E done \in BOOLEAN : Suggest(k, i, done)
                           \/ \E r \in { Group[s].roots[n] : n \in 1..Len(Group[s].roots) } : EnterG(k, r)
                           \/ LeaveG(k)
        \/ \E i \in Lines(1), j \in Lines(2) : Both(i, j)
Spec == Init /\ [][Next]_vars

-------------------------------------------------------------------------
(* C17: the tables hold only what the words mean, whatever was forgotten,  *)
(* and they never outgrow their size                                        *)
Coherent == \A k \in Side : \A key \in DOMAIN cache[k] : cache[k][key] = True_[key]
Bounded == \A k \in Side : Cardinality(DOMAIN cache[k]) <= size

SayTable == hist = <<>> /\ s = 1 => PrintT("@@" \o ToJson([tab |-> Fresh]))
SayHistory == Len(hist) = Depth => PrintT("@@" \o ToJson([s |-> Group[s].name, size |-> size, hist |-> hist]))
=======================================================================
