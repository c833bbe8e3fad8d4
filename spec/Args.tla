------------------------------ MODULE Args ------------------------------
(* C18: a list of arguments handed to a command from the outside.          *)
(* The arguments are added one at a time; every state says which line they *)
(* stand for, the words of that line and what a command taking them gets.  *)
EXTENDS Lexing
Pool   == Corpus.pool        \* sequence of arguments (strings)
MaxLen == Corpus.maxlen

VARIABLE args                \* indices into Pool
Init == args \in { <<>>, <<1>> }
Room == IF args # <<>> /\ args[1] = 1 THEN MaxLen ELSE 2
Next == \E i \in 1..Len(Pool) : Len(args) < Room /\ args' = Append(args, i)

White == {" ", "\t", "\n", "\r", Ctl.vt, "\f"}
IsBlank(a) == CharsOf(a) \subseteq White
(* an argument in quotes already is passed on as it is                      *)
IsQuoted(a) == StartsWith(a, DQ) /\ EndsWith(a, DQ)
Special == {" ", TAB, NL, DQ, BS}
Typed(a) == IF ~IsQuoted(a) /\ CharsOf(a) \cap Special # {} THEN DQ \o Encode(a) \o DQ ELSE a
RECURSIVE LineOf(_, _)
LineOf(as, i) == IF i > Len(as) THEN ""
                 ELSE IF IsBlank(Pool[as[i]]) THEN LineOf(as, i + 1)
                 ELSE LET rest == LineOf(as, i + 1) IN Typed(Pool[as[i]]) \o (IF rest = "" THEN "" ELSE " ") \o rest
Line == LineOf(args, 1)
Lexed == Lex(Line)
Texts == [ i \in 1..Len(Lexed.words) |-> TextOf(Lexed.words[i].s) ]

(* the command "go", with at most Corpus.most words of free text behind it *)
First == Lexed.words[1].s
IsGo == First \in {"g", "go"}
Verdict == IF ~Lexed.ok \/ Lexed.words = <<>> THEN "partial"
           ELSE IF IsGo /\ Len(Texts) - 1 <= Corpus.most THEN "success" ELSE "failure"
Record == [ args |-> [ i \in 1..Len(args) |-> Pool[args[i]] ], r |-> Verdict,
            got |-> IF Verdict = "success" THEN Tail(Texts) ELSE <<>> ]
EmitAll == PrintT("@@" \o ToJson(Record))

(* unless an argument comes in quotes, it is one word and reads back as it is *)
Solid == SelectSeq([ i \in 1..Len(args) |-> Pool[args[i]] ], LAMBDA a : ~IsBlank(a))
Intact == (\A i \in 1..Len(args) : ~IsQuoted(Pool[args[i]])) => (Lexed.ok /\ Texts = Solid)
=========================================================================
