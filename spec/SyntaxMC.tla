--------------------------- MODULE SyntaxMC ---------------------------
(* Texts of grammar specifications, symbol by symbol (C20): every prefix   *)
(* of a well formed text is ended in the shortest way, every symbol that   *)
(* may not come next is put there all the same.                             *)
EXTENDS Syntax, Json, IOUtils
Corpus == JsonDeserialize(IOEnv.CORPUS)
Sym    == Corpus.sym          \* [k, v] each
Start  == Corpus.start        \* texts to begin with
MaxLen == Corpus.maxlen

VARIABLES from, text, p
vars == <<from, text, p>>
Init == /\ from \in 1..Len(Start)
        /\ text = <<>>
        /\ p = FeedAll(P0, Start[from], 1)
Next == /\ Len(text) < MaxLen
        /\ Alive(p)
        /\ \E i \in 1..Len(Sym) : /\ text' = Append(text, Sym[i])
                                  /\ p' = Feed(p, Sym[i])
                                  /\ ~IsSkip(p')
        /\ UNCHANGED from
Spec == Init /\ [][Next]_vars
View == <<from, text>>

(* the parser stands where a definition begins exactly when all is closed  *)
Ended(q) == Len(q.stk) = 1 /\ TopF(q).w = "def"
Balanced == Alive(p) => \A i \in 1..Len(p.stk) : (p.stk[i].f = "T") <=> (i = 1)

(* every text that may go on can be ended                                  *)
End == Closing(p, 40)
CanBeEnded == Alive(p) => Ended(FeedAll(p, End, 1))

(* a text that went wrong, ended as if the last symbol were not there      *)
Before == FeedAll(P0, Start[from] \o SubSeq(text, 1, Len(text) - 1), 1)
Say ==
  IF Alive(p)
  THEN LET q == FeedAll(p, End, 1) IN
       /\ PrintT("@@" \o ToJson([t |-> Start[from] \o text \o End, ok |-> Accepts(q), gr |-> q.gr, tk |-> q.tk, n |-> Len(text)]))
       /\ IF Ended(p) THEN TRUE
          ELSE PrintT("@@" \o ToJson([t |-> Start[from] \o text, ok |-> FALSE, n |-> Len(text)]))
  ELSE PrintT("@@" \o ToJson([t |-> Start[from] \o text \o Closing(Before, 40), ok |-> FALSE, n |-> Len(text)]))
=======================================================================
