--------------------------- MODULE RoundTrip ---------------------------
(* C10: every string over an alphabet is written as a word of a command    *)
(* line and read back.                                                      *)
EXTENDS Lexing
Alphabet == Corpus.alphabet
MaxLen   == Corpus.maxlen

VARIABLE s
Init == s = ""
Next == \E i \in 1..Len(Alphabet) : Len(s) < MaxLen /\ s' = s \o Alphabet[i]

(* strings that already begin or end with a quote are taken as quoted      *)
InDomain == s # "" /\ ~StartsWith(s, DQ) /\ ~EndsWith(s, DQ)
Word == CliForm(s)
Inner(w) == IF StartsWith(w, DQ) THEN Sub(w, 2, Len(w) - 1) ELSE w

(* one word, and it reads back as the string                                *)
OneWord  == InDomain => Lex(Word) = [ok |-> TRUE, words |-> << [s |-> Word, q |-> NeedsQuotes(s), i |-> FALSE] >>]
ReadBack == InDomain => Decode(Inner(Word)) = s
(* also as an argument among others                                         *)
Apart    == InDomain => Lex("a " \o Word \o " b").words =
              << [s |-> "a", q |-> FALSE, i |-> FALSE], [s |-> Word, q |-> NeedsQuotes(s), i |-> FALSE],
                 [s |-> "b", q |-> FALSE, i |-> FALSE] >>
EmitAll == InDomain => PrintT("@@" \o ToJson([s |-> s, c |-> Word, q |-> NeedsQuotes(s), d |-> Decode(s), n |-> Inner(Word)]))
========================================================================
