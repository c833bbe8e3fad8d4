---------------------------- MODULE Editor ----------------------------
(* Editing a command line with the TAB key.                                *)
(* The user types pieces of text, moves the cursor, erases, gives the line *)
(* up or enters it, and presses TAB at any point.  TAB either lists the    *)
(* ways to go on, or appends text that is forced:                          *)
(*   - the rest of the word as far as all its completions agree, when the  *)
(*     list for this very line has just been shown or the line shown       *)
(*     before was typed on,                                                *)
(*   - a blank when the word is complete and cannot be anything else,      *)
(*   - the next word when there is only one and the line has been shown.   *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC, Json, Matching
L == INSTANCE Lexing

VARIABLES g,        \* the grammar
          buf, at,  \* the line and the position of the cursor
          cur,      \* the line for which ways to go on were listed last
          shown,    \* completions of its last word have been listed
          blank,    \* the list for the empty line has been shown
          did, seen \* what the user did, what was seen
vars == <<g, buf, at, cur, shown, blank, did, seen>>

None == "(none)"
Node0 == Root[g].node
Init == /\ g \in 1..Len(Root) /\ buf = "" /\ at = 0 /\ cur = None
        /\ shown = FALSE /\ blank = FALSE /\ did = <<>> /\ seen = <<>>

-------------------------------------------------------------------------
(* the line before the cursor key: candidates and ways to go on             *)
RECURSIVE Fold(_, _, _, _)
Fold(st, ws, i, n) == IF i > n \/ st.vague \/ st.cands = {} THEN st
                      ELSE Fold(Step(Node0, st.cands, ws[i], FALSE), ws, i + 1, n)
Zero == [cands |-> {<<>>}, vague |-> FALSE]
WordsOf(b) == LET x == L!Lex(b) IN [ i \in 1..Len(x.words) |-> x.words[i].s ]
OpenQuote(b) == LET x == L!Lex(b) IN x.words # <<>> /\ x.words[Len(x.words)].i /\ EndsWith(b, x.words[Len(x.words)].s)
Done(b) == EndsWith(b, " ") /\ ~OpenQuote(b)          \* the last word is finished
Typing(b) == ~Done(b) /\ WordsOf(b) # <<>>
Word_(b) == LET ws == WordsOf(b) IN ws[Len(ws)]
Before(b) == Fold(Zero, WordsOf(b), 1, Len(WordsOf(b)) - 1)
State(b) == IF ~Typing(b) THEN Fold(Zero, WordsOf(b), 1, Len(WordsOf(b)))
            ELSE LET st == Before(b) IN IF st.vague \/ st.cands = {} THEN st ELSE Step(Node0, st.cands, Word_(b), TRUE)
Alive(b) == LET st == State(b) IN ~st.vague /\ st.cands # {}

(* the tokens in question: those of the word being typed, or the next ones  *)
TokensAt(b) ==
  IF Typing(b) THEN { TokOf(cd[Len(cd)]) : cd \in State(b).cands }
  ELSE { TokOf(c) : c \in UNION { Choices(Node0, cd) : cd \in State(b).cands } }
Typed(b) == IF Typing(b) THEN Word_(b) ELSE ""
EndHere(b) == ~Typing(b) /\ Complete(State(b).cands) # {}
(* what can be listed: <<completion or "", help>>                            *)
Entries(b) == UNION { EntriesOf(td, Typed(b)) : td \in TokensAt(b) }
Words(b) == { e[1] : e \in { e \in Entries(b) : e[1] # "" } }
Free(b) == \E e \in Entries(b) : e[1] = ""
CaseFree(b) == \E td \in TokensAt(b) : td.ty = "bool" /\ ~IsFree(td, Typed(b))

(* the longest text all strings of S start with                             *)
RECURSIVE Common(_, _)
Common(S, n) == LET s == CHOOSE s \in S : TRUE IN
                IF n < Len(s) /\ \A t \in S : StartsWith(t, Sub(s, 1, n + 1)) THEN Common(S, n + 1) ELSE Sub(s, 1, n)
Forced(b) == IF Typing(b) /\ ~Free(b) /\ Words(b) # {} THEN Common(Words(b), 0) ELSE ""
(* the only word that can be here                                           *)
Only(b) == IF ~Free(b) /\ Cardinality(Words(b)) = 1 /\ ~EndHere(b) THEN CHOOSE s \in Words(b) : TRUE ELSE None
Extends(b, c) == StartsWith(b, c) \/ (CaseFree(b) /\ StartsWith(Lower(b), Lower(c)))

-------------------------------------------------------------------------
Act(k, t) == did' = Append(did, [k |-> k, t |-> t])
More == Len(did) < Corpus.depth
See(b, o) == seen' = Append(seen, [b |-> b, o |-> o])
Edit(k, t, b, p) == /\ More /\ Act(k, t) /\ buf' = b /\ at' = p /\ See(b, {})
                    /\ UNCHANGED <<g, cur, shown, blank>>

Type(i) == LET t == Corpus.pieces[g][i]
           IN Edit("type", t, Sub(buf, 1, at) \o t \o From(buf, at + 1), at + Len(t))
Back  == at > 0 /\ Edit("back", "", Sub(buf, 1, at - 1) \o From(buf, at + 1), at - 1)
Left_ == at > 0 /\ Edit("left", "", buf, at - 1)
Abandon == buf # "" /\ Edit("int", "", "", 0)
RECURSIVE Held(_)        \* a line that goes on
Held(b) == b # "" /\ (EndsWith(b, BS) \/ (EndsWith(b, " ") /\ Held(Sub(b, 1, Len(b) - 1))))
Enter_ == /\ More /\ buf # "" /\ ~Held(buf) /\ Act("enter", "") /\ buf' = "" /\ at' = 0 /\ See("", {})
          /\ cur' = None /\ UNCHANGED <<g, shown, blank>>

(* TAB                                                                       *)
Insert(t, e) == /\ buf' = buf \o t /\ at' = Len(buf \o t) /\ See(buf \o t, {})
                /\ shown' = FALSE /\ blank' = e /\ UNCHANGED cur
Failed(m) == /\ buf' = buf /\ at' = Len(buf) /\ See(buf, {<<m, "">>}) /\ UNCHANGED <<cur, shown, blank>>
List == /\ buf' = buf /\ at' = Len(buf) /\ cur' = buf /\ blank' = (buf = "")
        /\ shown' = (shown \/ Forced(buf) # "")
        /\ See(buf, Entries(buf) \cup (IF EndHere(buf) THEN {<<EOL, "">>} ELSE {}))
Tab ==
  /\ More /\ Act("tab", "") /\ UNCHANGED g
  /\ IF ~L!Lex(buf).ok THEN Failed("!lex")
     ELSE IF ~Alive(buf) THEN Failed("!match")
     ELSE LET p == Forced(buf)  w == Typed(buf)  rest == From(p, Len(w) + 1) IN
     IF p # "" /\ StartsWith(p, w) /\ p # w /\ buf = cur THEN Insert(rest, blank)
     ELSE IF p # "" /\ p # w /\ shown /\ cur # None /\ cur # "" /\ Len(buf) > Len(cur) /\ Extends(buf, cur)
          THEN Insert(rest \o (IF Words(buf) = {p} THEN " " ELSE ""), blank)
     ELSE IF p # "" /\ p = w /\ Only(buf) = w THEN Insert(" ", blank)
     ELSE IF ~Typing(buf) /\ buf # "" /\ Only(buf) # None /\ buf = cur THEN Insert(Only(buf), blank)
     ELSE IF buf = "" /\ Only(buf) # None /\ blank THEN Insert(Only(buf), FALSE)
     ELSE List

Next == \/ \E i \in 1..Len(Corpus.pieces[g]) : Type(i)
        \/ Back \/ Left_ \/ Abandon \/ Enter_ \/ Tab
Spec == Init /\ [][Next]_vars

-------------------------------------------------------------------------
(* C19: what TAB appends is shared by everything the line could become      *)
LastWas(k) == did # <<>> /\ did[Len(did)].k = k
PrevBuf == IF Len(seen) > 1 THEN seen[Len(seen) - 1].b ELSE ""
Grew == LastWas("tab") /\ Len(buf) > Len(PrevBuf)
TabKeeps == LastWas("tab") => StartsWith(buf, PrevBuf)
TabForced == Grew =>
  /\ Alive(PrevBuf) /\ ~Free(PrevBuf)
  /\ LET ins == From(buf, Len(PrevBuf) + 1)
         word == IF EndsWith(ins, " ") /\ ~OpenQuote(buf) THEN Sub(ins, 1, Len(ins) - 1) ELSE ins
     IN \A c \in Words(PrevBuf) : StartsWith(c, Typed(PrevBuf) \o word)
TabBlank == (Grew /\ EndsWith(buf, " ") /\ ~OpenQuote(buf)) => Words(PrevBuf) = {WordsOf(buf)[Len(WordsOf(buf))]}
TabAlive == Grew => Alive(buf)

EmitAll == Len(did) = Corpus.depth => PrintT("@@" \o ToJson([g |-> Root[g].name, did |-> did, seen |-> seen]))
=======================================================================
