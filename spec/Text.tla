----------------------------- MODULE Text -----------------------------
(* Character level text: prefixes, the escape sequences of the CLI and    *)
(* the quoting of words.  TLC implements Len, SubSeq and \o on strings.    *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC, Corpus
Ch(s, i)      == SubSeq(s, i, i)
Sub(s, a, b)  == IF a > b THEN "" ELSE SubSeq(s, a, b)
From(s, a)    == Sub(s, a, Len(s))
StartsWith(s, p) == Len(p) <= Len(s) /\ Sub(s, 1, Len(p)) = p
EndsWith(s, p)   == Len(p) <= Len(s) /\ Sub(s, Len(s) - Len(p) + 1, Len(s)) = p
CharsOf(s)       == { Ch(s, i) : i \in 1..Len(s) }

BS == "\\"
DQ == "\""

(* escape letter -> character; the control characters that TLA+ source    *)
(* cannot spell (NUL BS VT BEL) come from the corpus                       *)
EscLetters == {"n", "0", "r", "t", "b", "v", "a", DQ, BS}
EscChar(l) == CASE l = "n" -> "\n" [] l = "r" -> "\r" [] l = "t" -> "\t"
                [] l = "0" -> Ctl.nul [] l = "b" -> Ctl.bs [] l = "v" -> Ctl.vt
                [] l = "a" -> Ctl.bel [] l = DQ -> DQ [] l = BS -> BS
EscLetterOf(c) == CHOOSE l \in EscLetters : EscChar(l) = c
Escaped == { EscChar(l) : l \in EscLetters }

(* decoding: one left to right pass; an unknown escape stays as typed      *)
RECURSIVE DecodeFrom(_, _)
DecodeFrom(s, i) ==
  IF i > Len(s) THEN ""
  ELSE IF Ch(s, i) = BS /\ i < Len(s) /\ Ch(s, i + 1) \in EscLetters
       THEN EscChar(Ch(s, i + 1)) \o DecodeFrom(s, i + 2)
       ELSE Ch(s, i) \o DecodeFrom(s, i + 1)
Decode(s) == DecodeFrom(s, 1)

RECURSIVE EncodeFrom(_, _)
EncodeFrom(s, i) ==
  IF i > Len(s) THEN ""
  ELSE (IF Ch(s, i) \in Escaped THEN BS \o EscLetterOf(Ch(s, i)) ELSE Ch(s, i))
       \o EncodeFrom(s, i + 1)
Encode(s) == EncodeFrom(s, 1)

(* the form in which a word has to be typed on a command line              *)
NeedsQuotes(s) == CharsOf(s) \cap ((Escaped \cup {" "}) \ {}) # {}
CliForm(s) == IF NeedsQuotes(s) THEN DQ \o Encode(s) \o DQ ELSE s

(* the value of a typed word used as a free form string: one leading and   *)
(* one trailing quote are dropped and the escapes undone                    *)
Unquote(w) == LET a == IF StartsWith(w, DQ) THEN From(w, 2) ELSE w
              IN IF EndsWith(a, DQ) THEN Sub(a, 1, Len(a) - 1) ELSE a

TextOf(w) == Decode(Unquote(w))

Digits == {"0","1","2","3","4","5","6","7","8","9"}
IsDigits(s) == Len(s) > 0 /\ CharsOf(s) \subseteq Digits
DigitVal(c) == CHOOSE d \in 0..9 : ToString(d) = c
RECURSIVE NatOf(_)
NatOf(s) == IF Len(s) = 0 THEN 0 ELSE 10 * NatOf(Sub(s, 1, Len(s) - 1)) + DigitVal(Ch(s, Len(s)))

LowerMap == [ c \in {"A","B","C","D","E","F","G","H","I","J","K","L","M","N","O","P","Q","R","S","T","U","V","W","X","Y","Z"} |->
   CASE c="A"->"a" [] c="B"->"b" [] c="C"->"c" [] c="D"->"d" [] c="E"->"e" [] c="F"->"f" [] c="G"->"g" [] c="H"->"h" [] c="I"->"i"
     [] c="J"->"j" [] c="K"->"k" [] c="L"->"l" [] c="M"->"m" [] c="N"->"n" [] c="O"->"o" [] c="P"->"p" [] c="Q"->"q" [] c="R"->"r"
     [] c="S"->"s" [] c="T"->"t" [] c="U"->"u" [] c="V"->"v" [] c="W"->"w" [] c="X"->"x" [] c="Y"->"y" [] c="Z"->"z" ]
LowerCh(c) == IF c \in DOMAIN LowerMap THEN LowerMap[c] ELSE c
RECURSIVE Lower(_)
Lower(s) == IF Len(s) = 0 THEN "" ELSE LowerCh(Ch(s, 1)) \o Lower(From(s, 2))
=======================================================================
