------------------------------ MODULE MCServer ------------------------------
(* How the server works: one task per client, which reads a line, puts it in  *)
(* the queue of the reasoner and then sends what was reported and not yet     *)
(* sent; the reasoner appends reports to a list of the last Cap ones, one at  *)
(* a time.  Checked: this refines NarServer (each client gets its reports in  *)
(* order, each once, ...) and a client which sends lines gets its reports.    *)
EXTENDS Naturals, Sequences, FiniteSets, TLC
CONSTANTS Cs, Cap, MaxLines, Sizes, Variant
VARIABLES inbox, queue, todo, arr, next, st, task, cur, out, sent, start, est
vars == <<inbox, queue, todo, arr, next, st, task, cur, out, sent, start, est>>
(* a line is the number of its reports, a report its number *)
Init == /\ inbox = [c \in Cs |-> <<>>] /\ queue = <<>> /\ todo = 0 /\ arr = <<>> /\ next = 1
        /\ st = [c \in Cs |-> "off"] /\ task = [c \in Cs |-> "no"] /\ cur = [c \in Cs |-> 0] /\ out = [c \in Cs |-> <<>>]
        /\ sent = 0 /\ start = [c \in Cs |-> 0] /\ est = [c \in Cs |-> FALSE]
Here(c) == st[c] \in {"joining", "on"}
Connect(c) == st[c] = "off" /\ st' = [st EXCEPT ![c] = "joining"] /\ start' = [start EXCEPT ![c] = next] /\ UNCHANGED <<inbox, queue, todo, arr, next, task, cur, out, sent, est>>
Accept(c) == /\ st[c] = "joining" /\ task[c] = "no" /\ st' = [st EXCEPT ![c] = "on"] /\ task' = [task EXCEPT ![c] = "read"]
             /\ cur' = [cur EXCEPT ![c] = IF Variant = "history" THEN 1 ELSE next] /\ UNCHANGED <<inbox, queue, todo, arr, next, out, sent, start, est>>
Send(c) == /\ Here(c) /\ sent < MaxLines /\ sent' = sent + 1
           /\ \E k \in Sizes : inbox' = [inbox EXCEPT ![c] = Append(@, k)]
           /\ UNCHANGED <<queue, todo, arr, next, st, task, cur, out, start, est>>
Read(c) == /\ task[c] = "read" /\ inbox[c] # <<>>
           /\ queue' = Append(queue, <<c, Head(inbox[c])>>) /\ inbox' = [inbox EXCEPT ![c] = Tail(@)] /\ task' = [task EXCEPT ![c] = "flush"]
           /\ UNCHANGED <<todo, arr, next, st, cur, out, sent, start, est>>
New(c) == SelectSeq(arr, LAMBDA r : IF Variant = "again" THEN r + 1 >= cur[c] ELSE r >= cur[c])
Flush(c) == /\ task[c] = "flush" /\ task' = [task EXCEPT ![c] = "read"]
            /\ out' = [out EXCEPT ![c] = IF Here(c) THEN @ \o New(c) ELSE <<>>]
            /\ cur' = [cur EXCEPT ![c] = IF New(c) = <<>> THEN @ ELSE New(c)[Len(New(c))] + 1]
            /\ UNCHANGED <<inbox, queue, todo, arr, next, st, sent, start, est>>
Nar == todo = 0 /\ queue # <<>> /\ todo' = Head(queue)[2] /\ queue' = Tail(queue) /\ est' = [est EXCEPT ![Head(queue)[1]] = TRUE] /\ UNCHANGED <<inbox, arr, next, st, task, cur, out, sent, start>>
Push == /\ todo > 0 /\ todo' = todo - 1 /\ next' = next + 1
        /\ arr' = LET a == Append(arr, next) IN IF Len(a) > Cap THEN SubSeq(a, Len(a) - Cap + (IF Variant = "short" THEN 2 ELSE 1), Len(a)) ELSE a
        /\ UNCHANGED <<inbox, queue, st, task, cur, out, sent, start, est>>
Get(c) == Here(c) /\ out[c] # <<>> /\ out' = [out EXCEPT ![c] = Tail(@)] /\ est' = [est EXCEPT ![c] = TRUE] /\ UNCHANGED <<inbox, queue, todo, arr, next, st, task, cur, sent, start>>
Leave(c) == Here(c) /\ st' = [st EXCEPT ![c] = "gone"] /\ out' = [out EXCEPT ![c] = <<>>] /\ UNCHANGED <<inbox, queue, todo, arr, next, task, cur, sent, start, est>>
End(c) == st[c] = "gone" /\ task[c] = "read" /\ task' = [task EXCEPT ![c] = "no"] /\ inbox' = [inbox EXCEPT ![c] = <<>>] /\ UNCHANGED <<queue, todo, arr, next, st, cur, out, sent, start, est>>
Next == Nar \/ Push \/ \E c \in Cs : Connect(c) \/ Accept(c) \/ Send(c) \/ Read(c) \/ Flush(c) \/ Get(c) \/ Leave(c) \/ End(c)
Fair == WF_vars(Nar) /\ WF_vars(Push) /\ \A c \in Cs : WF_vars(Accept(c)) /\ WF_vars(Read(c)) /\ WF_vars(Flush(c)) /\ WF_vars(Get(c))
Spec == Init /\ [][Next]_vars /\ Fair
(* ---- refinement: a line is taken up when the reasoner takes it from the queue ---- *)
Lines(c) == LET q == SelectSeq(queue, LAMBDA x : x[1] = c) IN [k \in 1..Len(q) |-> q[k][2]] \o inbox[c]
Pending(c) == IF Here(c) THEN out[c] \o LET a == IF task[c] = "no" THEN start[c] ELSE cur[c] IN [k \in 1..(next - a) |-> a + k - 1] ELSE <<>>
A == INSTANCE NarServer WITH inbox <- [c \in Cs |-> Lines(c)], pend <- [c \in Cs |-> Pending(c)], nar <- next + todo, todo <- [k \in 1..todo |-> next + k - 1],
                             st <- [c \in Cs |-> IF st[c] = "joining" \/ (st[c] = "on" /\ ~est[c]) THEN "joining" ELSE st[c]]
Effect(line, n) == { << [k \in 1..line |-> n + k - 1], n + line >> }
AbsNext == A!Report \/ \E c \in Cs : \/ A!Connect(c) \/ A!TakeUp(c, Effect) \/ A!Leave(c)
                         \/ (\E k \in Sizes : A!Send(c, k))
                         \/ (\E m \in 1..(next + todo) : A!Get(c, m))
                         \/ (\E n \in 0..(next + todo) : A!Early(c, n)) \/ (\E n \in 0..MaxLines : A!Forget(c, n))
                         \/ (\E m, n \in 1..(next + todo) : A!Lose(c, m, n))
Refines == [][AbsNext]_(A!svars)
(* a client whose task is about to send gets what was reported *)
Has(c, r) == \E k \in 1..Len(Pending(c)) : Pending(c)[k] = r
Delivered == \A c \in Cs : \A r \in 1..3 : (task[c] = "flush" /\ r < next /\ Has(c, r)) ~> ~Has(c, r)
TakenUp == \A c \in Cs : (Here(c) /\ Lines(c) # <<>>) ~> (st[c] = "gone" \/ Lines(c) = <<>>)
=============================================================================
