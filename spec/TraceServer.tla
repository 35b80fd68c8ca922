---------------------------- MODULE TraceServer ----------------------------
(* Validation of what clients of the real server sent and received against    *)
(* NarServer.  The order in which lines of different clients are taken up is  *)
(* not observed: TLC searches for an order which explains what was received.  *)
(* The reasoner: "tell" adds an open task and its concepts, "list" reports    *)
(* the open tasks, "clear" drops them, "count" reports the number of concepts;*)
(* "ask" registers a question, which is answered once, some time after cycles.*)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
Cap == 50
MaxClient == 40
VARIABLES l, inbox, todo, pend, st, nar
S == INSTANCE NarServer
svars == <<inbox, todo, pend, st, nar>>
Fresh == /\ inbox = [c \in 1..MaxClient |-> <<>>] /\ todo = <<>> /\ pend = [c \in 1..MaxClient |-> <<>>] /\ st = [c \in 1..MaxClient |-> "off"]
         /\ nar = [tasks |-> <<>>, told |-> 0, open |-> {}]
(* lines: <<kind, name>> *)
Effect(x, n) ==
  CASE x[1] = "tell" -> { << <<>>, [n EXCEPT !.tasks = Append(@, x[2]), !.told = @ + 1] >> }
    [] x[1] = "clear" -> { << <<>>, [n EXCEPT !.tasks = <<>>] >> }
    [] x[1] = "list" -> { << [k \in 1..Len(n.tasks) |-> <<"task", n.tasks[k]>>], n >> }
    [] x[1] = "count" -> { << << <<"count", ToString(IF n.told = 0 THEN 0 ELSE 2 * n.told + 1)>> >>, n >> }
    [] x[1] = "ask" -> { << <<>>, [n EXCEPT !.open = @ \cup {x[2]}] >> }
    [] OTHER -> { << <<>>, n >> }
Ev == Trace[l + 1]
Observed(e) ==
  CASE e.op = "start" -> /\ inbox' = [c \in 1..MaxClient |-> <<>>] /\ todo' = <<>> /\ pend' = [c \in 1..MaxClient |-> <<>>] /\ st' = [c \in 1..MaxClient |-> "off"]
                         /\ nar' = [tasks |-> <<>>, told |-> 0, open |-> {}]
    [] e.op = "connect" -> S!Connect(e.c)
    [] e.op = "send" -> S!Send(e.c, e.line)
    [] e.op = "got" -> S!Get(e.c, e.msg)
    [] e.op = "leave" -> S!Leave(e.c)
    (* has said all and leaves after that: its lines have to be taken up *)
    [] e.op = "eof" -> S!Listening(e.c) /\ st' = [st EXCEPT ![e.c] = "ended"] /\ pend' = [pend EXCEPT ![e.c] = <<>>] /\ UNCHANGED <<inbox, todo, nar>>
    (* everybody has seen a report of the last line of everybody *)
    [] e.op = "quiet" -> /\ \A c \in 1..MaxClient : (st[c] \in {"joining", "on", "ended"} => inbox[c] = <<>>) /\ (S!Listening(c) => pend[c] = <<>>)
                         /\ todo = <<>> /\ nar.open = {} /\ UNCHANGED svars
    [] OTHER -> FALSE     \* lost, died
(* Pruning.  Up to the next "quiet" event everything is received.  A client which is there from one "quiet" *)
(* event to the next gets the last Cap reports in any case: if it gets fewer, then fewer were made and none is *)
(* lost for anybody.  Then what is pending for a client has to be what it receives next.                     *)
RECURSIVE SegEnd(_)
SegEnd(i) == IF i >= Len(Trace) \/ Trace[i].op = "quiet" THEN i ELSE SegEnd(i + 1)
RECURSIVE SegBegin(_)
SegBegin(i) == IF i = 1 THEN 1 ELSE IF Trace[i - 1].op = "quiet" THEN i ELSE SegBegin(i - 1)
SegEnds == [i \in 1..Len(Trace) |-> SegEnd(i)]
OfClient(seg, c) == SelectSeq(seg, LAMBDA e : e.op \in {"got", "connect", "leave", "eof"} /\ e.c = c)
NoLoss == [j \in { SegEnds[i] : i \in 1..Len(Trace) } |->
             LET b == SegBegin(j) seg == SubSeq(Trace, b, j)
             IN  /\ Trace[j].op = "quiet" /\ b > 1
                 /\ \A i \in 1..Len(seg) : seg[i].op # "start"
                 /\ \E c \in { Trace[i].c : i \in { x \in 1..(b - 1) : Trace[x].op = "connect" } } :
                      LET g == OfClient(seg, c) IN Len(g) > 0 /\ Len(g) < Cap /\ \A k \in 1..Len(g) : g[k].op = "got"]
Consistent ==
  IF ~NoLoss[SegEnds[l + 1]] THEN TRUE
  ELSE LET on == { c \in 1..MaxClient : st[c] = "on" /\ pend[c] # <<>> }
           seg == SubSeq(Trace, l + 1, SegEnds[l + 1])
       IN  \A c \in on : LET g == OfClient(seg, c)
                         IN  IF \E k \in 1..Len(g) : g[k].op # "got" THEN TRUE
                             ELSE Len(pend[c]) <= Len(g) /\ \A k \in 1..Len(pend[c]) : pend[c][k] = g[k].msg
Quiet == Ev.op = "quiet"
(* unobserved steps happen only when the next event needs them *)
(* upper bound of the number of reports a client can have in front of it, before anything else is sent *)
RECURSIVE Sum(_, _)
Sum(f, D) == IF D = {} THEN 0 ELSE LET d == CHOOSE x \in D : TRUE IN f[d] + Sum(f, D \ {d})
Senders == { c \in 1..MaxClient : inbox[c] # <<>> }
Kind(c, k) == Cardinality({ i \in 1..Len(inbox[c]) : inbox[c][i][1] = k })
Count(k) == Sum([c \in 1..MaxClient |-> IF c \in Senders THEN Kind(c, k) ELSE 0], Senders)
Potential(c) == Len(pend[c]) + Len(todo) + Count("count") + Count("list") * (Len(nar.tasks) + Count("tell")) + Cardinality(nar.open)
AnyNeed == IF Ev.op # "got" THEN FALSE
           ELSE IF pend[Ev.c] = <<>> \/ st[Ev.c] = "joining" THEN TRUE
           ELSE ~NoLoss[SegEnds[l + 1]] /\ Potential(Ev.c) > Cap
Internal ==
  \/ (AnyNeed \/ Quiet) /\ (\E c \in 1..MaxClient : S!TakeUp(c, Effect))
  \/ (AnyNeed \/ Quiet) /\ (\E c \in 1..MaxClient : st[c] = "joining" /\ \E n \in 1..Len(pend[c]) : S!EarlyTakeUp(c, n, Effect))
  \/ (AnyNeed \/ Quiet) /\ S!Report
  \/ AnyNeed /\ (\E q \in nar.open : S!Spontaneous(<<"answer", q>>, [nar EXCEPT !.open = @ \ {q}]))
  \/ AnyNeed /\ S!Early(Ev.c, 1)
  \/ AnyNeed /\ S!Lose(Ev.c, 1, 1)
Init == l = 0 /\ Fresh /\ TLCSet(17, 0)
Next == /\ TLCGet(17) < Len(Trace) /\ (Consistent = TRUE)
        /\ \/ Observed(Ev) /\ l' = l + 1 /\ (IF l' > TLCGet(17) THEN TLCSet(17, l') ELSE TRUE)
           \/ Internal /\ l' = l
Spec == Init /\ [][Next]_<<l, svars>>
Accepted == IF TLCGet(17) = Len(Trace) THEN TRUE ELSE PrintT(<<"REJECTED", TLCGet(17) + 1>>) /\ FALSE
=============================================================================
