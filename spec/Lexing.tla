---------------------------- MODULE Lexing ----------------------------
(* Splitting a line into words, character by character.                    *)
(* A word is [s |-> its text, q |-> quoted, i |-> the quote was left open] *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json, Text

NL == "\n"  TAB == "\t"  CR == "\r"
Blank(c) == c \in {" ", TAB}
Stops(c) == c \in {BS, NL}              \* must not stand outside quotes
Shut(c)  == c \in {NL, TAB, CR, Ctl.nul} \* must not stand inside quotes

(* one scan: mode gap/text/quote/esc/bad, the finished words, the open one *)
Fresh == [mode |-> "gap", done |-> <<>>, cur |-> ""]
Fin(z, q, i) == [z EXCEPT !.mode = "gap", !.cur = "", !.done = Append(@, [s |-> z.cur, q |-> q, i |-> i])]
Opened_(z, c) ==     \* c read between two words
  IF Blank(c) THEN z
  ELSE IF Stops(c) THEN [z EXCEPT !.mode = "bad"]
  ELSE [z EXCEPT !.mode = IF c = DQ THEN "quote" ELSE "text", !.cur = c]
Feed(z, c) ==
  CASE z.mode = "bad"  -> z
    [] z.mode = "gap"  -> Opened_(z, c)
    [] z.mode = "text" -> IF Blank(c) \/ Stops(c) \/ c = DQ THEN Opened_(Fin(z, FALSE, FALSE), c)
                          ELSE [z EXCEPT !.cur = @ \o c]
    [] z.mode = "quote" -> IF c = DQ THEN Fin([z EXCEPT !.cur = @ \o c], TRUE, FALSE)
                           ELSE IF c = BS THEN [z EXCEPT !.mode = "esc"]
                           ELSE IF Shut(c) THEN Opened_(Fin(z, TRUE, TRUE), c)
                           ELSE [z EXCEPT !.cur = @ \o c]
    [] z.mode = "esc"  -> IF c \in EscLetters THEN [z EXCEPT !.mode = "quote", !.cur = @ \o BS \o c]
                          \* not an escape: the string breaks off behind the backslash
                          ELSE Opened_(Fin([z EXCEPT !.cur = @ \o BS], TRUE, TRUE), c)
Closed(z) ==         \* the end of the line
  CASE z.mode = "text"  -> Fin(z, FALSE, FALSE)
    [] z.mode = "quote" -> Fin(z, TRUE, TRUE)
    [] z.mode = "esc"   -> Fin([z EXCEPT !.cur = @ \o BS], TRUE, TRUE)
    [] OTHER -> z
RECURSIVE Scan(_, _, _)
Scan(z, s, i) == IF i > Len(s) THEN Closed(z) ELSE Scan(Feed(z, Ch(s, i)), s, i + 1)
Lex(s) == LET z == Scan(Fresh, s, 1) IN [ok |-> z.mode # "bad", words |-> IF z.mode = "bad" THEN <<>> ELSE z.done]
=======================================================================
