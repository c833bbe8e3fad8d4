---------------------------- MODULE Session ----------------------------
(* An interactive session of command classes: reading lines (of a user or  *)
(* of command files), continuation and comments, running handlers, nested  *)
(* contexts, input requests, faults, and the life of the loop.             *)
(*                                                                         *)
(* Corpus.ctx    the command classes: root grammar (index in Root), what   *)
(*               its handlers do (ops), its hooks, whether a line it       *)
(*               cannot derive is handed to the context that opened it     *)
(* Corpus.lines  what the user may type, Corpus.answers what he may answer *)
(* Corpus.file   the command files                                         *)
(* A user step is one element of `inp'; everything in between happens by   *)
(* itself.  The observable behaviour is `log'.                             *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC, Json, Exec
L == INSTANCE Lexing

Ctx   == Corpus.ctx
Files == Corpus.file

VARIABLES
  stack,   \* the contexts that are open, the top level one first
  files,   \* lines of command files still to be read, the file in use last
  inp,     \* what the user did so far
  log,     \* what an observer saw
  runs     \* how often the session has been started
vars == <<stack, files, inp, log, runs>>

-------------------------------------------------------------------------
(* text of lines                                                            *)
Space == {" ", "\t", "\n", "\r", "\f", Ctl.vt}
RECURSIVE RTrim(_)
RTrim(s) == IF Len(s) > 0 /\ Ch(s, Len(s)) \in Space THEN RTrim(Sub(s, 1, Len(s) - 1)) ELSE s
RECURSIVE LTrim(_)
LTrim(s) == IF Len(s) > 0 /\ Ch(s, 1) \in Space THEN LTrim(From(s, 2)) ELSE s
Continued(s) == EndsWith(RTrim(s), BS)
Uncontinued(s) == LET t == RTrim(s) IN Sub(t, 1, Len(t) - 1)
Comment(s) == StartsWith(LTrim(s), "#")
RECURSIVE Stars(_)
Stars(n) == IF n = 0 THEN "" ELSE "*" \o Stars(n - 1)

-------------------------------------------------------------------------
(* what is seen: output and errors run together                             *)
Out(lg, t) == IF t = "" THEN lg
              ELSE IF lg # <<>> /\ lg[Len(lg)].e = "out" THEN [lg EXCEPT ![Len(lg)].t = @ \o t]
              ELSE Append(lg, [e |-> "out", t |-> t])
Err(lg) == IF lg # <<>> /\ lg[Len(lg)].e = "err" THEN lg ELSE Append(lg, [e |-> "err"])
Hook(lg, n, f) == Append(lg, [e |-> "hook", n |-> n, c |-> Ctx[f.c].name])

-------------------------------------------------------------------------
(* the lines of command files                                               *)
RECURSIVE Unread(_)
Unread(fs) == IF fs # <<>> /\ fs[Len(fs)] = <<>> THEN Unread(SubSeq(fs, 1, Len(fs) - 1)) ELSE fs
HasLine == Unread(files) # <<>>
TopLine == LET fs == Unread(files) IN fs[Len(fs)][1]
AfterLine == LET fs == Unread(files) IN Unread([fs EXCEPT ![Len(fs)] = Tail(@)])
Loaded(i) == [ k \in 1..Len(Files[i].lines) |-> RTrim(Files[i].lines[k]) ]
FileNamed(n) == { i \in 1..Len(Files) : Files[i].name = n }

-------------------------------------------------------------------------
(* matching one line against the grammar of a context                       *)
RECURSIVE Fold(_, _, _, _)
Fold(x, st, ws, i) == IF i > Len(ws) \/ st.vague \/ st.cands = {} THEN st
                      ELSE Fold(x, Step(x, st.cands, ws[i], FALSE), ws, i + 1)
After(c, ws) == Fold(Root[Ctx[c].root].node, [cands |-> {<<>>}, vague |-> FALSE], ws, 1)
Result(c, ws) == Outcome(After(c, ws), ws)
Calls(c, ws) == LET w == CHOOSE cd \in Winners(After(c, ws).cands, ws) : TRUE
                IN Execute(Root[Ctx[c].root], w, ws).log

(* can this context, or one it hands lines to, derive the line as a beginning *)
RECURSIVE Takes(_, _)
Takes(i, ws) == LET f == stack[i] IN
  \/ LET st == After(f.c, ws) IN ~st.vague /\ st.cands # {}
  \/ f.mp /\ i > 1 /\ Takes(i - 1, ws)
HandsUp(i, ws) == /\ i > 1 /\ stack[i].mp /\ ws # <<>>
                  /\ Result(stack[i].c, ws) = "failure"
                  /\ Takes(i - 1, ws)

(* what a call of a line leads to: the operations of the handler, or, for  *)
(* the other functions, a mark (and an error if the function raises)        *)
Txt(v) == PyText(v)
Handler(c, f) == { k \in 1..Len(Ctx[c].cmd) : Ctx[c].cmd[k].f = f }
Ops(c, call) ==
  LET h == Handler(c, call.f) IN
  IF h # {} THEN LET s == Ctx[c].cmd[CHOOSE k \in h : TRUE].ops
                 IN [ k \in 1..Len(s) |-> IF s[k].s = "$" THEN [s[k] EXCEPT !.s = Txt(call.a[1])] ELSE s[k] ]
  ELSE LET m == [o |-> "mark", s |-> call.f \o ":" \o (IF call.a = <<>> THEN "" ELSE Txt(call.a[1]))]
       IN IF call.f \in {"bad", "abad"} THEN <<m, [o |-> "boom", s |-> ""]>> ELSE <<m>>
Work(c, ws) == LET lg == Calls(c, ws) IN [ k \in 1..Len(lg) |-> Ops(c, lg[k]) ]

-------------------------------------------------------------------------
(* contexts                                                                 *)
(*   ph    pre (before the loop), post (contexts opened before the first    *)
(*         prompt), prompt, wait (for the user), run (a line), up (a line   *)
(*         goes to the context below), leave, dead (an exception ends it)   *)
(*   todo  operations still to be carried out, one list per call            *)
(*   acc   text of the continued line, part: more is to come                *)
(*   kid   the context a handler asked for                                  *)
NewFrame(k, mp) ==
  [c |-> k, mp |-> mp, ph |-> "pre", todo |-> <<Ctx[k].pre>>, asking |-> FALSE,
   acc |-> "", part |-> FALSE, exit |-> FALSE, kid |-> <<>>,
   main |-> FALSE, bad |-> FALSE, ws |-> <<>>]
Top == stack[Len(stack)]
Put_(f) == [stack EXCEPT ![Len(stack)] = f]
Below == SubSeq(stack, 1, Len(stack) - 1)
Pushed(f) == Append(Put_([f EXCEPT !.kid = <<>>]), NewFrame(f.kid[1], f.kid[2]))

Bounded == Len(inp) < Corpus.depth
Did(k, t) == inp' = Append(inp, [k |-> k, t |-> t])
Quiet == UNCHANGED <<inp, runs>>

Init == /\ stack = <<>> /\ files = <<>> /\ inp = <<>> /\ log = <<>> /\ runs = 0

(* the session is started; it can be started again when it has ended        *)
StartUp ==
  /\ stack = <<>> /\ runs < Corpus.runs /\ Bounded
  /\ Did("run", "")
  /\ runs' = runs + 1
  /\ stack' = <<NewFrame(1, FALSE)>>
  /\ LET i == FileNamed(Corpus.start) IN
     IF Corpus.start = "" THEN UNCHANGED <<files, log>>
     ELSE IF i = {} THEN files' = files /\ log' = Err(log)
     ELSE files' = Append(files, Loaded(CHOOSE k \in i : TRUE)) /\ log' = log

-------------------------------------------------------------------------
(* operations of handlers and hooks                                         *)
Busy == stack # <<>> /\ Top.todo # <<>> /\ ~Top.asking
Idle(ph) == stack # <<>> /\ Top.ph = ph /\ Top.todo = <<>> /\ ~Top.asking
Rest == IF Len(Top.todo[1]) <= 1 THEN Tail(Top.todo) ELSE <<Tail(Top.todo[1])>> \o Tail(Top.todo)
Next1 == [Top EXCEPT !.todo = Rest]
Op == Top.todo[1][1]

NoOps == /\ Busy /\ Top.todo[1] = <<>> /\ Quiet /\ UNCHANGED <<files, log>>
         /\ stack' = Put_([Top EXCEPT !.todo = Tail(@)])
Does(o) == Busy /\ Top.todo[1] # <<>> /\ Op.o = o /\ Quiet

Mark == /\ Does("mark") /\ UNCHANGED files /\ stack' = Put_(Next1)
        /\ log' = Append(log, [e |-> "mark", c |-> Ctx[Top.c].name, s |-> Op.s])
Say  == /\ Does("say") /\ UNCHANGED files /\ stack' = Put_(Next1)
        /\ log' = Out(log, Op.s \o "\n")
Again == /\ Does("again") /\ UNCHANGED files /\ stack' = Put_(Next1)
         /\ log' = Append(log, [e |-> "refused"])
Load == /\ Does("load") /\ stack' = Put_(Next1)
        /\ LET i == FileNamed(Op.s) IN
           IF i = {} THEN log' = Err(log) /\ UNCHANGED files
           ELSE files' = Append(files, Loaded(CHOOSE k \in i : TRUE)) /\ log' = log
Enter_ == /\ Does("enter") /\ UNCHANGED <<files, log>>
          /\ stack' = Put_([Next1 EXCEPT !.kid = <<Op.k, Op.mp>>])
Leave_ == /\ Does("exit") /\ UNCHANGED <<files, log>>
          /\ stack' = Put_([Next1 EXCEPT !.exit = TRUE])
Up     == /\ Does("up") /\ UNCHANGED <<files, log>>        \* ends the context below as well
          /\ stack' = IF Len(stack) = 1 THEN Put_(Next1) ELSE [Put_(Next1) EXCEPT ![Len(stack) - 1].exit = TRUE]
Ask ==
  /\ Does("ask")
  /\ IF HasLine /\ ~Op.direct
     THEN /\ files' = AfterLine
          /\ log' = Append(Out(log, (IF Op.echo THEN Op.p ELSE "")
                                \o (IF Op.show THEN TopLine ELSE Stars(Len(TopLine))) \o "\n"),
                           [e |-> "answer", s |-> TopLine])
          /\ stack' = Put_(Next1)
     ELSE /\ log' = Append(log, [e |-> "ask", p |-> Op.p, m |-> ~Op.show])
          /\ stack' = Put_([Next1 EXCEPT !.asking = TRUE])
          /\ UNCHANGED files
Boom ==
  /\ Does("boom") /\ UNCHANGED files
  /\ IF Top.ph = "run"
     THEN \* a handler raises: reported, and the rest of the line goes on
          stack' = Put_([Top EXCEPT !.todo = Tail(@)]) /\ log' = Err(log)
     ELSE \* a hook raises: the context ends
          stack' = Put_([Top EXCEPT !.ph = "dead", !.todo = <<>>]) /\ log' = log

-------------------------------------------------------------------------
(* before the first prompt                                                  *)
PreDone == /\ Idle("pre") /\ Quiet /\ UNCHANGED files
           /\ stack' = Put_([Top EXCEPT !.ph = "post", !.kid = <<>>, !.todo = <<Ctx[Top.c].post>>])
           /\ log' = IF Len(stack) = 1 /\ Corpus.intro # "" THEN Out(log, Corpus.intro \o "\n") ELSE log
PostDone == /\ Idle("post") /\ Quiet /\ UNCHANGED <<files, log>>
            /\ stack' = IF Top.kid # <<>> THEN Pushed(Top)
                        ELSE Put_([Top EXCEPT !.ph = "prompt", !.main = TRUE, !.acc = "", !.part = FALSE])

-------------------------------------------------------------------------
(* reading and running lines                                                *)
To(ph) == [Top EXCEPT !.ph = ph, !.acc = "", !.part = FALSE]
Take(line, lg) ==      \* the context at the top reads one more line
  LET a == Top.acc \o line IN
  IF Continued(a) THEN stack' = Put_([Top EXCEPT !.ph = "prompt", !.acc = Uncontinued(a), !.part = TRUE]) /\ log' = lg
  ELSE IF Comment(a) THEN stack' = Put_(To("prompt")) /\ log' = lg
  ELSE LET x == L!Lex(a)  ws == [ i \in 1..Len(x.words) |-> x.words[i].s ] IN
       IF ~x.ok THEN stack' = Put_(To("prompt")) /\ log' = Err(lg)
       ELSE IF ws = <<>> THEN stack' = Put_(To("prompt")) /\ log' = lg
       ELSE IF Result(Top.c, ws) = "success"
            THEN stack' = Put_([To("run") EXCEPT !.kid = <<>>, !.bad = FALSE, !.todo = Work(Top.c, ws)]) /\ log' = lg
       ELSE IF HandsUp(Len(stack), ws) THEN stack' = Put_([To("up") EXCEPT !.ws = ws]) /\ log' = lg
       ELSE stack' = Put_(To("prompt")) /\ log' = Err(lg)
PromptText == IF Top.part THEN "" ELSE Ctx[Top.c].prompt

Prompt ==
  /\ Idle("prompt") /\ Quiet
  /\ IF Top.exit THEN stack' = Put_([Top EXCEPT !.ph = "leave"]) /\ UNCHANGED <<files, log>>
     ELSE IF HasLine THEN Take(TopLine, Out(log, PromptText \o TopLine \o "\n")) /\ files' = AfterLine
     ELSE /\ stack' = Put_([Top EXCEPT !.ph = "wait"]) /\ UNCHANGED files
          /\ log' = Append(log, [e |-> "read", p |-> PromptText])

LineDone ==
  /\ Idle("run") /\ Quiet /\ UNCHANGED files
  /\ IF Top.kid # <<>> THEN stack' = Pushed(Top) /\ log' = log
     ELSE IF ~Top.main THEN stack' = Put_([Top EXCEPT !.ph = "post"]) /\ log' = log
     ELSE stack' = Put_([Top EXCEPT !.ph = "prompt", !.bad = FALSE]) /\ log' = IF Top.bad THEN Err(log) ELSE log

(* leaving a context                                                        *)
Left_(how) == LET lg == Hook(log, "exit", Top) IN
  IF Len(stack) = 1 THEN Append(lg, [e |-> "end", how |-> how]) ELSE lg
Leaving == /\ Idle("leave") /\ Quiet /\ UNCHANGED files
           /\ stack' = Below /\ log' = Left_("ok")
Dying ==   /\ Idle("dead") /\ Quiet /\ UNCHANGED files
           /\ LET n == Len(stack) - 1 IN
              IF n = 0 THEN stack' = <<>> /\ log' = Left_("exception")
              ELSE IF stack[n].main
                   THEN stack' = [Below EXCEPT ![n].ph = "prompt", ![n].bad = FALSE] /\ log' = Err(Left_(""))
                   ELSE stack' = [Below EXCEPT ![n].ph = "dead"] /\ log' = Left_("")
(* the line goes to the context below, which takes it as one of its own     *)
PassUp ==  /\ Idle("up") /\ Quiet /\ UNCHANGED files
           /\ log' = Append(Left_(""), [e |-> "ghost", n |-> "handed up"])   \* a ghost: not visible
           /\ LET n == Len(stack) - 1
                  ws == Top.ws
                  f == stack[n]
                  g == IF Result(f.c, ws) = "success" THEN [f EXCEPT !.ph = "run", !.kid = <<>>, !.todo = Work(f.c, ws), !.bad = FALSE]
                       ELSE IF HandsUp(n, ws) THEN [f EXCEPT !.ph = "up", !.ws = ws]
                       ELSE [f EXCEPT !.ph = "run", !.bad = TRUE]
              IN stack' = [Below EXCEPT ![n] = g]

-------------------------------------------------------------------------
(* the user                                                                 *)
Waiting == Idle("wait") /\ Bounded /\ UNCHANGED <<files, runs>>
Type(i) == Waiting /\ Did("line", Corpus.lines[i]) /\ Take(Corpus.lines[i], log)
Interrupt == /\ Waiting /\ Did("int", "")
             /\ stack' = Put_([Top EXCEPT !.ph = "prompt"]) /\ log' = Hook(log, "interrupt", Top)
EndOfInput == /\ Waiting /\ Did("eof", "")
              /\ stack' = Put_([Top EXCEPT !.ph = "prompt", !.exit = @ \/ Ctx[Top.c].eofexit]) /\ log' = Hook(log, "eof", Top)
(* TAB on a continued line brings back the whole line for editing           *)
Recall(i) == /\ Waiting /\ Top.part /\ Did("recall", Corpus.lines[i]) /\ Take(Corpus.lines[i], log)
RecallInterrupt == /\ Waiting /\ Top.part /\ Did("recallint", "")
                   /\ stack' = Put_(To("prompt")) /\ log' = Hook(log, "interrupt", Top)
Asked == stack # <<>> /\ Top.asking /\ Bounded /\ UNCHANGED <<files, runs>>
Replied(t) == /\ stack' = Put_([Top EXCEPT !.asking = FALSE]) /\ log' = Append(log, [e |-> "answer", s |-> t])
Reply(i) == Asked /\ Did("line", Corpus.answers[i]) /\ Replied(Corpus.answers[i])
ReplyInterrupt == Asked /\ Did("int", "") /\ Replied("")
ReplyEof == Asked /\ Did("eof", "") /\ Replied("")

Internal == \/ NoOps \/ Mark \/ Say \/ Again \/ Load \/ Enter_ \/ Leave_ \/ Up \/ Ask \/ Boom
            \/ PreDone \/ PostDone \/ Prompt \/ LineDone \/ Leaving \/ Dying \/ PassUp
User == \/ StartUp
        \/ \E i \in 1..Len(Corpus.lines) : Type(i) \/ Recall(i)
        \/ Interrupt \/ EndOfInput \/ RecallInterrupt
        \/ \E i \in 1..Len(Corpus.answers) : Reply(i)
        \/ ReplyInterrupt \/ ReplyEof
Next == Internal \/ User
Spec == Init /\ [][Next]_vars

-------------------------------------------------------------------------
(* properties of the design                                                 *)
Count(P(_)) == Cardinality({ k \in 1..Len(log) : P(log[k]) })
IsExit(r) == r.e = "hook" /\ r.n = "exit"
IsEnd(r) == r.e = "end"
Settled == stack = <<>> \/ (Idle("wait")) \/ (stack # <<>> /\ Top.asking)

(* C25: the session is running exactly between its start and its end        *)
Lifecycle == Count(IsEnd) = (IF stack = <<>> THEN runs ELSE runs - 1)
(* C15: every context is left once; ended sessions left theirs              *)
ExitsMatch == stack = <<>> => Count(IsExit) >= Count(IsEnd)
(* C14: a user is only asked for a line when the command files are used up  *)
FilesFirst == (stack # <<>> /\ Top.ph = "wait") => ~HasLine
(* C13: what is carried over is exactly what is continued                   *)
CarriedOver == stack # <<>> => \A i \in 1..Len(stack) : stack[i].acc # "" => stack[i].part
(* only the top context can be at work                                      *)
OnlyTopWorks == \A i \in 1..(Len(stack) - 1) : stack[i].todo = <<>> /\ ~stack[i].asking /\ stack[i].ph \in {"run", "post"}

(* a command file can load itself for ever                                  *)
Sane == Len(files) <= 8 /\ Len(log) <= 150 /\ (log # <<>> /\ log[Len(log)].e = "out" => Len(log[Len(log)].t) <= 1500)

Final == Settled /\ (Len(inp) = Corpus.depth \/ (stack = <<>> /\ runs = Corpus.runs /\ runs > 0))
EmitAll == Final => PrintT("@@" \o ToJson([inp |-> inp, log |-> log, left |-> files,
                                        on |-> stack # <<>>, open |-> [ i \in 1..Len(stack) |-> Ctx[stack[i].c].name ]]))
=======================================================================
