--------------------------- MODULE Matching ---------------------------
(* Matching a line against a grammar: the candidates that survive each     *)
(* word, and the decision taken at the end of the line.                    *)
(* A candidate is the sequence of stacks of open nodes, one per word.      *)
EXTENDS Naturals, Sequences, FiniteSets, Grammar

Choices(x, cand) == IF cand = <<>> THEN FirstTab[x] ELSE Next_(cand[Len(cand)])

(* how one candidate extends over the word w; `last' is TRUE for the word  *)
(* still being typed when suggestions are asked for                        *)
Extend(x, cand, w, last) ==
  LET ch   == Choices(x, cand)
      full == { c \in ch : MatchOf(TokOf(c), w) = "success" /\ ValueOf(TokOf(c), w) # NullV }
      part == { c \in ch : MatchOf(TokOf(c), w) = "partial" }
      keep == { c \in part : last \/ ValueOf(TokOf(c), w) # NullV }
      fully == { c \in part : Completable(TokOf(c)) /\ Comps(TokOf(c), w) # {} }
      many == \/ Cardinality(fully) > 1
              \/ \E c \in fully : Cardinality(Comps(TokOf(c), w)) > 1
  IN [ cands |-> { Append(cand, c) : c \in full \cup keep },
       \* an abbreviation that leaves several whole words open is refused
       vague |-> ~last /\ many /\ \E c \in part : Completable(TokOf(c)) /\ ValueOf(TokOf(c), w) = NullV ]

Step(x, cands, w, last) ==
  LET ext == { Extend(x, cd, w, last) : cd \in cands }
  IN [ cands |-> UNION { e.cands : e \in ext }, vague |-> \E e \in ext : e.vague ]

Complete(cands) == { cd \in cands : cd # <<>> /\ CanEnd(cd[Len(cd)]) }

(* disambiguation, word by word from the left: a candidate that has the    *)
(* word exactly beats one that only extends it, then a keyword or other    *)
(* enumerable token beats free form text                                   *)
RECURSIVE Prefer(_, _, _)
Prefer(cands, line, i) ==
  IF Cardinality(cands) <= 1 \/ i > Len(line) THEN cands
  ELSE LET exact == { cd \in cands : MatchOf(TokOf(cd[i]), line[i]) = "success" }
           c1    == IF exact # {} THEN exact ELSE cands
           enum  == { cd \in c1 : Completable(TokOf(cd[i])) }
           c2    == IF enum # {} THEN enum ELSE c1
       IN Prefer(c2, line, i + 1)
Winners(cands, line) == Prefer(Complete(cands), line, 1)

Outcome(st, line) ==       \* st = [cands, vague] after the whole line
  IF line = <<>> THEN "partial"
  ELSE IF st.vague \/ st.cands = {} THEN "failure"
  ELSE LET n == Cardinality(Complete(st.cands))
       IN IF n = 0 THEN "partial"
          ELSE IF Cardinality(Winners(st.cands, line)) = 1 THEN "success" ELSE "ambigous"

(* suggestions: after a complete last word, and while it is being typed    *)
EOL == "<NEWLINE>"
OffersAfter(x, cands, line) ==
  UNION { Offers(TokOf(c), "") : c \in UNION { Choices(x, cd) : cd \in cands } }
  \cup (IF Complete(cands) # {} THEN {EOL} ELSE {})
(* with their help texts: <<completion or "", help>>                        *)
IsFree(td, w) == ~Completable(td) \/ Comps(td, w) = {}
EntriesOf(td, w) == IF IsFree(td, w) THEN { <<"", Help(td)>> } ELSE { <<c, HelpOf(td, c)>> : c \in Comps(td, w) }
EntriesAfter(x, cands) == UNION { EntriesOf(TokOf(c), "") : c \in UNION { Choices(x, cd) : cd \in cands } }
EntriesFor(cands, w) == UNION { EntriesOf(TokOf(cd[Len(cd)]), w) : cd \in cands }
OffersFor(cands, w) == UNION { Offers(TokOf(cd[Len(cd)]), w) : cd \in cands }
=======================================================================
