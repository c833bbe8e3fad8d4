-------------------------- MODULE TokenTypes --------------------------
(* What a declared token accepts, offers and delivers, word by word.       *)
(*   ty = kw   a keyword          s                                         *)
(*        str  a free form string                                           *)
(*        alt  one of o           o (sequence of strings)                   *)
(*        int  integer lo..hi     lo, hi, sug (most suggestions offered)    *)
(*        rstr string of lo..hi characters                                  *)
(*        bool True or False, any case, may be abbreviated                  *)
(*        dec  decimal lo..hi     lo, hi in thousandths                     *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, Text

NullV   == [t |-> "null"]
StrV(s) == [t |-> "str", s |-> s]
IntV(i) == [t |-> "int", i |-> i]
BoolV(b) == [t |-> "bool", b |-> b]
NoneV   == [t |-> "none"]
DecV(m) == [t |-> "dec", m |-> m]       \* thousandths

(* ---------------------------------------------------------------- int -- *)
IsInt(w) == IsDigits(w) \/ (StartsWith(w, "-") /\ IsDigits(From(w, 2)))
IntOf(w) == IF StartsWith(w, "-") THEN 0 - NatOf(From(w, 2)) ELSE NatOf(w)
Abs(i) == IF i < 0 THEN 0 - i ELSE i
(* numbers of lo..hi whose decimal writing starts like that of the word: a  *)
(* span for every number of further digits                                   *)
Pow10 == <<1, 10, 100, 1000, 10000, 100000, 1000000, 10000000, 100000000>>
Max(a, b) == IF a > b THEN a ELSE b
Min(a, b) == IF a < b THEN a ELSE b
Span(lo, hi, n, k) ==
  IF n > hi \div Pow10[k] THEN [a |-> 1, b |-> 0]
  ELSE [a |-> Max(lo, n * Pow10[k]), b |-> IF n * Pow10[k] > hi - (Pow10[k] - 1) THEN hi ELSE n * Pow10[k] + (Pow10[k] - 1)]
Spans(lo, hi, n) ==        \* of the numbers in lo..hi, none negative
  IF hi < 0 \/ hi < lo THEN <<>>
  ELSE IF n = 0 THEN << [a |-> Max(lo, 0), b |-> 0] >>
  ELSE [ k \in 1..9 |-> Span(lo, hi, n, k) ]
IntSpans(td, w) ==         \* magnitudes; the sign is that of the word
  IF w = "-" THEN << [a |-> Max(1, 0 - td.hi), b |-> 0 - td.lo] >>
  ELSE IF ~IsInt(w) THEN <<>>
  ELSE LET n == IntOf(w) IN
       IF n < 0 THEN Spans(Max(1, 0 - td.hi), 0 - td.lo, 0 - n) ELSE Spans(Max(0, td.lo), td.hi, n)
RECURSIVE SpanSize(_, _)
SpanSize(sp, i) == IF i > Len(sp) THEN 0 ELSE Max(0, sp[i].b - sp[i].a + 1) + SpanSize(sp, i + 1)
IntCount(td, w) == IF w = "" THEN td.hi - td.lo + 1 ELSE SpanSize(IntSpans(td, w), 1)
IntComps(td, w) ==
  IF IntCount(td, w) > td.sug THEN {}
  ELSE IF w = "" THEN td.lo..td.hi
  ELSE IF w # "-" /\ ~IsInt(w) THEN {}
  ELSE LET sp == IntSpans(td, w)  m == UNION { sp[i].a..sp[i].b : i \in 1..Len(sp) }
       IN IF w = "-" \/ (IntOf(w) < 0) THEN { 0 - v : v \in m } ELSE m
IntMatch(td, w) ==
  LET n == IntCount(td, w) IN
  IF n = 0 THEN "failure"
  ELSE IF n = 1 /\ w # "-" /\ IntOf(w) \in td.lo..td.hi /\ ToString(IntOf(w)) = w THEN "success" ELSE "partial"

(* --------------------------------------------------------------- bool -- *)
BoolOf(w) == IF w # "" /\ StartsWith("true", Lower(w)) THEN "true"
             ELSE IF w # "" /\ StartsWith("false", Lower(w)) THEN "false" ELSE ""

(* ------------------------------------------------------------ decimal -- *)
RECURSIVE IndexOf(_, _, _)
IndexOf(s, c, i) == IF i > Len(s) THEN 0 ELSE IF Ch(s, i) = c THEN i ELSE IndexOf(s, c, i + 1)
DecBody(w) == IF StartsWith(w, "-") THEN From(w, 2) ELSE w
IsDec(w) == LET b == DecBody(w)  p == IndexOf(b, ".", 1) IN
            IF p = 0 THEN IsDigits(b)
            ELSE /\ (p > 1 \/ p < Len(b))
                 /\ (p = 1 \/ IsDigits(Sub(b, 1, p - 1)))
                 /\ (p = Len(b) \/ IsDigits(From(b, p + 1)))
Pad3(s) == Sub(s \o "000", 1, 3)
DecOf(w) == LET b == DecBody(w)  p == IndexOf(b, ".", 1)
                ip == IF p = 0 THEN b ELSE Sub(b, 1, p - 1)
                fp == IF p = 0 THEN "" ELSE From(b, p + 1)
                m  == 1000 * NatOf(ip) + NatOf(Pad3(fp))
            IN IF StartsWith(w, "-") THEN 0 - m ELSE m

(* ------------------------------------------------------------- tables -- *)
Completable(td) == td.ty \in {"kw", "alt", "int", "bool"}

Comps(td, w) ==      \* the set of whole words the typed word can become
  CASE td.ty = "kw"   -> IF StartsWith(CliForm(td.s), w) THEN {CliForm(td.s)} ELSE {}
    [] td.ty = "alt"  -> { CliForm(td.o[i]) : i \in { i \in 1..Len(td.o) : StartsWith(CliForm(td.o[i]), w) } }
    [] td.ty = "int"  -> { ToString(v) : v \in IntComps(td, w) }
    [] td.ty = "bool" -> IF w = "" THEN {"True", "False"}
                         ELSE LET b == BoolOf(w) IN IF b = "" THEN {} ELSE { w \o From(b, Len(w) + 1) }
    [] OTHER -> {}

MatchOf(td, w) ==
  CASE td.ty = "kw" -> IF CliForm(td.s) = w THEN "success"
                       ELSE IF StartsWith(CliForm(td.s), w) THEN "partial" ELSE "failure"
    [] td.ty = "str" -> "partial"
    [] td.ty = "alt" -> IF \E i \in 1..Len(td.o) : CliForm(td.o[i]) = w THEN "success"
                        ELSE LET n == Cardinality(Comps(td, w))
                             IN IF n = 0 THEN "failure" ELSE IF n = 1 THEN "success" ELSE "partial"
    [] td.ty = "int" -> IntMatch(td, w)
    [] td.ty = "rstr" -> LET n == Len(TextOf(w))
                         IN IF n > td.hi THEN "failure" ELSE IF n = td.hi THEN "success" ELSE "partial"
    [] td.ty = "bool" -> IF BoolOf(w) = "" THEN "failure"
                         ELSE IF Lower(w) \in {"true", "false"} THEN "success" ELSE "partial"
    [] td.ty = "dec" -> IF w = "-" THEN (IF td.lo >= 0 THEN "failure" ELSE "partial")
                        ELSE IF ~IsDec(w) THEN "failure"
                        ELSE IF DecOf(w) > 0 /\ DecOf(w) > td.hi THEN "failure"
                        ELSE IF DecOf(w) < 0 /\ DecOf(w) < td.lo THEN "failure" ELSE "partial"

ValueOf(td, w) ==
  CASE td.ty = "kw"  -> IF StartsWith(CliForm(td.s), w) THEN StrV(td.s) ELSE NullV
    [] td.ty = "str" -> StrV(TextOf(w))
    [] td.ty = "alt" -> LET C == { i \in 1..Len(td.o) : StartsWith(CliForm(td.o[i]), w) }
                            E == { i \in C : CliForm(td.o[i]) = w }
                        IN IF Cardinality({ td.o[i] : i \in C }) = 1 THEN StrV(td.o[CHOOSE i \in C : TRUE])
                           ELSE IF E # {} THEN StrV(td.o[CHOOSE i \in E : TRUE]) ELSE NullV
    [] td.ty = "int" -> IF IsInt(w) /\ IntOf(w) \in td.lo..td.hi THEN IntV(IntOf(w)) ELSE NullV
    [] td.ty = "rstr" -> LET u == TextOf(w) IN IF Len(u) \in td.lo..td.hi THEN StrV(u) ELSE NullV
    [] td.ty = "bool" -> LET b == BoolOf(w) IN IF b = "" THEN NullV ELSE BoolV(b = "true")
    [] td.ty = "dec" -> IF IsDec(w) /\ DecOf(w) \in td.lo..td.hi THEN DecV(DecOf(w)) ELSE NullV

(* what is shown for a token nothing can be completed for                  *)
RECURSIVE DecText(_)
Help(td) ==
  IF td.h # "" THEN td.h
  ELSE CASE td.ty = "kw" -> CliForm(td.s)
         [] td.ty = "str" -> "Any string"
         [] td.ty = "int" -> "An integer between " \o ToString(td.lo) \o " and " \o ToString(td.hi)
         [] td.ty = "rstr" -> "Any string of length (" \o ToString(td.lo) \o "-" \o ToString(td.hi) \o ")"
         [] td.ty = "bool" -> "True or False"
         [] td.ty = "dec" -> "A decimal number between " \o DecText(td.lo) \o " and " \o DecText(td.hi)
         [] OTHER -> "?"
DecText(m) == (IF m < 0 THEN "-" ELSE "") \o ToString(Abs(m) \div 1000) \o "."
              \o (LET f == Abs(m) % 1000 IN
                  IF f % 1000 = 0 THEN "0"
                  ELSE IF f % 100 = 0 THEN ToString(f \div 100)
                  ELSE IF f % 10 = 0 THEN (IF f < 100 THEN "0" ELSE "") \o ToString(f \div 10)
                  ELSE (IF f < 10 THEN "00" ELSE IF f < 100 THEN "0" ELSE "") \o ToString(f))

(* the help text shown with an offered word                                 *)
HelpOf(td, c) == IF td.ty = "alt" THEN (IF Cardinality(Comps(td, c)) = 1 THEN c ELSE "*") ELSE Help(td)

(* the words offered for a token after w has been typed                    *)
Offers(td, w) == IF Completable(td) /\ Comps(td, w) # {} THEN Comps(td, w) ELSE { Help(td) }

(* the words a token stands for without any disambiguation                 *)
Fits(td, w) == MatchOf(td, w) # "failure" /\ ValueOf(td, w) # NullV
=======================================================================
