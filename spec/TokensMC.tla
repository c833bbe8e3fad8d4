---------------------------- MODULE TokensMC ----------------------------
(* C11, C12: every declared token against every word typed character by     *)
(* character.                                                               *)
EXTENDS TokenTypes, Lexing
MaxLen == Corpus.maxlen

VARIABLES d, w
Init == d \in 1..Len(Tok) /\ w = ""
Td == Tok[d]
Alive(x) == x = "" \/ MatchOf(Td, x) # "failure"
Type(c) == /\ Len(w) < Td.maxlen /\ Alive(w)
           /\ w' = w \o c /\ d' = d
Next == \E i \in 1..Len(Td.chars) : Type(Td.chars[i])

(* the words a command line can contain; a quoted word whose end is open    *)
(* must not end in an escaped quote                                          *)
IsWord == LET l == Lex(w) IN l.ok /\ Len(l.words) = 1 /\ l.words[1].s = w /\ (l.words[1].i => (w = DQ \/ ~EndsWith(w, DQ)))
(* numbers written without leading zeros                                    *)
Canonical ==
  CASE Td.ty = "int" -> w = "-" \/ ~IsInt(w) \/ (ToString(IntOf(w)) = w)
    [] OTHER -> TRUE

Out == [ d |-> d, w |-> w, canon |-> Canonical, m |-> IF w = "" THEN "" ELSE MatchOf(Td, w), v |-> IF w = "" THEN NullV ELSE ValueOf(Td, w),
         c |-> Comps(Td, w), h |-> IF Td.ty = "alt" THEN "" ELSE Help(Td) ]
EmitAll == (w = "" \/ IsWord) => PrintT("@@" \o ToJson(Out))

(* ---------------------------------------------------------- the design -- *)
Dom == w # "" /\ IsWord /\ Canonical
Val(x) == ValueOf(Td, x)
ValueMeansMatch == Dom => (Val(w) # NullV => MatchOf(Td, w) # "failure")
SuccessMeansValue == (Dom /\ Td.ty # "rstr") => (MatchOf(Td, w) = "success" => Val(w) # NullV)
Written == [ v \in (0-1100)..1100 |-> ToString(v) ]
(* C11: exactly the integers of the range, with their number as value       *)
IntExact == (Dom /\ Td.ty = "int" /\ 0 - 1100 <= Td.lo /\ Td.hi <= 1100) =>
   /\ (Val(w) # NullV) <=> (\E v \in Td.lo..Td.hi : Written[v] = w)
   /\ Val(w) # NullV => ToString(Val(w).i) = w
   /\ (MatchOf(Td, w) # "failure") <=> (\E v \in Td.lo..Td.hi : StartsWith(Written[v], w))
   /\ (MatchOf(Td, w) = "success") => ~\E v \in Td.lo..Td.hi : StartsWith(Written[v], w) /\ Written[v] # w
(* the offers are all the numbers the word can become, if not too many      *)
IntOffers == (Dom /\ Td.ty = "int" /\ 0 - 1100 <= Td.lo /\ Td.hi <= 1100) =>
   LET S == { v \in Td.lo..Td.hi : StartsWith(Written[v], w) }
   IN Comps(Td, w) = IF Cardinality(S) > Td.sug THEN {} ELSE { Written[v] : v \in S }
(* every completion is a longer writing of the word that is accepted whole  *)
CompsAreValues == \A c \in Comps(Td, w) :
   /\ Td.ty \in {"kw", "alt", "bool"} => StartsWith(c, w)
   /\ Val(c) # NullV /\ MatchOf(Td, c) # "failure"
(* choice tokens deliver one of their alternatives, and an alternative typed *)
(* in full is itself                                                         *)
AltExact == (Dom /\ Td.ty = "alt") =>
   /\ Val(w) # NullV => \E i \in 1..Len(Td.o) : Val(w).s = Td.o[i] /\ StartsWith(CliForm(Td.o[i]), w)
   /\ \A i \in 1..Len(Td.o) : CliForm(Td.o[i]) = w => Val(w) = StrV(Td.o[i])
RstrExact == (Dom /\ Td.ty = "rstr") => ((Val(w) # NullV) <=> (Len(TextOf(w)) \in Td.lo..Td.hi))
=========================================================================
