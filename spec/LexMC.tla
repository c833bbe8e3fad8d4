----------------------------- MODULE LexMC -----------------------------
(* C09: every line over an alphabet, typed one character at a time.        *)
EXTENDS Lexing
Alphabet == Corpus.alphabet
MaxLen   == Corpus.maxlen

VARIABLES text, z
vars == <<text, z>>
Init == text = "" /\ z = Fresh
Type(c) == /\ Len(text) < MaxLen
           /\ text' = text \o c
           /\ z' = Feed(z, c)
Next == \E i \in 1..Len(Alphabet) : Type(Alphabet[i])
View == text

Out == LET e == Closed(z) IN [ t |-> text, ok |-> e.mode # "bad", w |-> IF e.mode = "bad" THEN <<>> ELSE e.done ]
EmitAll == PrintT("@@" \o ToJson(Out))

(* -------- the design, stated without the machine --------                *)
Ok == Out.ok
(* a plain word has no blank, quote or backslash; a quoted one starts with *)
(* a quote and is closed exactly when it is complete                        *)
RECURSIVE Escd(_, _)      \* is position i of s an escaped character?
Escd(s, i) == i > 1 /\ Ch(s, i - 1) = BS /\ ~Escd(s, i - 1)
WellFormed(x) ==
  IF ~x.q THEN x.s # "" /\ ~x.i /\ CharsOf(x.s) \cap {" ", TAB, NL, DQ, BS} = {}
  ELSE /\ StartsWith(x.s, DQ)
       /\ CharsOf(x.s) \cap {NL, TAB, CR, Ctl.nul} = {}
       /\ \A i \in 2..Len(x.s) : (Ch(x.s, i) = DQ /\ ~Escd(x.s, i)) => (i = Len(x.s) /\ ~x.i)
       /\ (~x.i) <=> (Len(x.s) > 1 /\ EndsWith(x.s, DQ) /\ ~Escd(x.s, Len(x.s)))
WordsWellFormed == Ok => \A k \in 1..Len(Out.w) : WellFormed(Out.w[k])
(* nothing is lost or invented: the words in order are the line without    *)
(* the blanks between them                                                  *)
RECURSIVE Covers(_, _, _)
Covers(s, ws, k) ==
  IF s # "" /\ Blank(Ch(s, 1)) THEN Covers(From(s, 2), ws, k)
  ELSE IF k > Len(ws) THEN s = ""
  ELSE StartsWith(s, ws[k].s) /\ Covers(From(s, Len(ws[k].s) + 1), ws, k + 1)
NothingLost == Ok => Covers(text, Out.w, 1)
(* two plain words never touch                                              *)
SameAsScan == Lex(text) = [ok |-> Out.ok, words |-> Out.w]
========================================================================
