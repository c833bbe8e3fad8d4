------------------------------ MODULE Cli ------------------------------
(* The command line as a state machine: a grammar is chosen, then a line   *)
(* is fed word by word.  Every reachable state is one (grammar, line) pair *)
(* and carries the candidates alive after the line; its Result says what   *)
(* executing the line must do and what the help key must offer.            *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC, Json, Exec

VARIABLES g,      \* index of the root grammar
          line,   \* the words fed so far
          st,     \* [cands, vague]: candidates after the line
          prev    \* candidates before its last word
vars == <<g, line, st, prev>>

Start(x) == [cands |-> {<<>>}, vague |-> FALSE]
Init == /\ g \in 1..Len(Root)
        /\ line = <<>>
        /\ st = Start(g)
        /\ prev = {}

Word(w) == /\ Len(line) < Root[g].maxlen
           /\ ~st.vague /\ st.cands # {}
           /\ line' = Append(line, w)
           /\ st' = Step(Root[g].node, st.cands, w, FALSE)
           /\ prev' = st.cands
           /\ g' = g
Next == \E i \in 1..Len(Root[g].words) : Word(Root[g].words[i])
Spec == Init /\ [][Next]_vars

View == <<g, line>>

(* very ambiguous lines are checked but not continued *)
Small == Cardinality(st.cands) <= 24

Verdict == Outcome(st, line)
Winner == CHOOSE cd \in Winners(st.cands, line) : TRUE
DryCands == IF line = <<>> THEN {} ELSE Step(Root[g].node, prev, line[Len(line)], TRUE).cands

Record ==
  LET x == Root[g].node
      base == [ g |-> Root[g].name, w |-> line, r |-> Verdict,
                nx |-> IF st.vague \/ st.cands = {} THEN {} ELSE OffersAfter(x, st.cands, line),
                ty |-> IF line = <<>> THEN OffersAfter(x, {<<>>}, line) ELSE OffersFor(DryCands, line[Len(line)]),
                na |-> Cardinality(st.cands), nc |-> Cardinality(Complete(st.cands)) ]
      full == IF "helps" \in DOMAIN Corpus
              THEN base @@ [ hx |-> IF st.vague \/ st.cands = {} THEN {} ELSE EntriesAfter(x, st.cands),
                             hy |-> IF line = <<>> THEN EntriesAfter(x, {<<>>}) ELSE EntriesFor(DryCands, line[Len(line)]) ]
              ELSE base
  IN IF Verdict = "success" THEN full @@ Execute(Root[g], Winner, line) ELSE full

------------------------------------------------------------------------
(* Properties of the design, checked by TLC on every corpus                *)

(* C01: the walker and the declarative definition derive the same lines in *)
(* the same number of ways                                                  *)
Paths(cd) == [ i \in 1..Len(cd) |-> PathOf(cd[i]) ]
Derivs == { r[2] : r \in { r \in Derive(Root[g].node, <<>>, line, 0) : r[1] = Len(line) } }
WalkerAgrees ==
  (line # <<>> /\ ~st.vague) =>
    { Paths(cd) : cd \in Complete(st.cands) } = Derivs

(* C02: the only candidate that has every word exactly, as an enumerable   *)
(* token, always wins over abbreviations and free text                     *)
AllExact(cd) == \A i \in 1..Len(line) : /\ MatchOf(TokOf(cd[i]), line[i]) = "success"
                                        /\ Completable(TokOf(cd[i]))
ExactWins ==
  LET E == { cd \in Complete(st.cands) : AllExact(cd) } IN
  (line # <<>> /\ Cardinality(E) = 1 /\ ~st.vague) => Winners(st.cands, line) = E

(* C03: a keyword is offered iff feeding it keeps the line alive           *)
KeywordsOf == { i \in 1..Len(Tok) : Tok[i].ty = "kw" }
OffersAreLegal ==
  (st.cands # {} /\ ~st.vague) =>
    \A c \in UNION { Choices(Root[g].node, cd) : cd \in st.cands } :
       TokOf(c).ty = "kw" => Step(Root[g].node, st.cands, CliForm(TokOf(c).s), FALSE).cands # {}

(* C05: every action bearing element of the derivation runs its actions    *)
(* exactly once: the number of opened elements equals the number left      *)
Opened(cand) == LET n(i) == IF i = 1 THEN Len(cand[1]) ELSE Len(cand[i]) - Shared(cand[i-1], cand[i])
                    RECURSIVE Sum(_)
                    Sum(i) == IF i = 0 THEN 0 ELSE n(i) + Sum(i - 1)
                IN Sum(Len(cand))
Left(cand) == LET n(i) == IF i = Len(cand) THEN Len(cand[i]) ELSE Len(cand[i]) - Shared(cand[i], cand[i+1])
                  RECURSIVE Sum(_)
                  Sum(i) == IF i = 0 THEN 0 ELSE n(i) + Sum(i - 1)
              IN Sum(Len(cand))
EnterExitBalance == Verdict = "success" => Opened(Winner) = Left(Winner)

(* C04: nothing runs unless the line succeeded                             *)
NoSilentAction == Verdict # "success" => "log" \notin DOMAIN Record

EmitAll == PrintT("@@" \o ToJson(Record))
========================================================================
