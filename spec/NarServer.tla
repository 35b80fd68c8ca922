----------------------------- MODULE NarServer -----------------------------
(* The server as its clients see it.  Clients send lines; the reasoner takes  *)
(* them up one at a time, those of each client in order, and makes reports.   *)
(* Every report goes to every client which is connected: each client gets the *)
(* reports in order, each once; only reports which are followed by Cap newer  *)
(* ones may get lost for a client which was not active meanwhile.             *)
EXTENDS Naturals, Sequences, FiniteSets, TLC
CONSTANTS Cap
VARIABLES inbox,   \* client -> lines sent, not yet taken up
          todo,    \* reports of the line which was taken up last, not yet made
          pend,    \* client -> reports made, not yet received by the client
          st,      \* client -> "off", "joining" (connected), "on", "gone"
          nar      \* state of the reasoner, as far as its reports depend on it
svars == <<inbox, todo, pend, st, nar>>
Clients == DOMAIN st
Listening(c) == st[c] \in {"joining", "on"}
Connect(c) == /\ st[c] = "off"
              /\ st' = [st EXCEPT ![c] = "joining"] /\ pend' = [pend EXCEPT ![c] = <<>>] /\ UNCHANGED <<inbox, todo, nar>>
Send(c, line) == Listening(c) /\ inbox' = [inbox EXCEPT ![c] = Append(@, line)] /\ UNCHANGED <<todo, pend, st, nar>>
(* a line is taken up; Effect(line, n) is the set of possible <<reports, next state of the reasoner>> *)
TakeUp(c, Effect(_, _)) ==
  /\ inbox[c] # <<>> /\ todo = <<>>
  /\ \E r \in Effect(Head(inbox[c]), nar) : nar' = r[2] /\ todo' = r[1]
  /\ inbox' = [inbox EXCEPT ![c] = Tail(@)]
  /\ st' = IF st[c] = "joining" THEN [st EXCEPT ![c] = "on"] ELSE st
  /\ UNCHANGED pend
ToAll(msg) == pend' = [d \in Clients |-> IF Listening(d) THEN Append(pend[d], msg) ELSE pend[d]]
Report == todo # <<>> /\ ToAll(Head(todo)) /\ todo' = Tail(todo) /\ UNCHANGED <<inbox, st, nar>>
(* the reasoner can report without a line: answers which are found later *)
Spontaneous(msg, nar2) == ToAll(msg) /\ nar' = nar2 /\ UNCHANGED <<inbox, todo, st>>
Get(c, msg) == /\ Listening(c) /\ pend[c] # <<>> /\ Head(pend[c]) = msg
               /\ pend' = [pend EXCEPT ![c] = Tail(@)] /\ st' = [st EXCEPT ![c] = "on"] /\ UNCHANGED <<inbox, todo, nar>>
(* while connecting: reports made before the connection is established are not for this client *)
Early(c, n) == st[c] = "joining" /\ n <= Len(pend[c]) /\ pend' = [pend EXCEPT ![c] = SubSeq(@, n + 1, Len(@))] /\ UNCHANGED <<inbox, todo, st, nar>>
(* both at once: Early, then TakeUp *)
EarlyTakeUp(c, n, Effect(_, _)) ==
  /\ st[c] = "joining" /\ 1 <= n /\ n <= Len(pend[c]) /\ pend' = [pend EXCEPT ![c] = SubSeq(@, n + 1, Len(@))]
  /\ inbox[c] # <<>> /\ todo = <<>> /\ inbox' = [inbox EXCEPT ![c] = Tail(@)] /\ st' = [st EXCEPT ![c] = "on"]
  /\ \E r \in Effect(Head(inbox[c]), nar) : nar' = r[2] /\ todo' = r[1]
(* the reports m..n are lost, which are followed by Cap newer ones *)
Lose(c, m, n) == /\ Listening(c) /\ 1 <= m /\ m <= n /\ n + Cap <= Len(pend[c])
                 /\ pend' = [pend EXCEPT ![c] = SubSeq(@, 1, m - 1) \o SubSeq(@, n + 1, Len(@))] /\ UNCHANGED <<inbox, todo, st, nar>>
(* after leaving the lines sent before may still be taken up *)
Leave(c) == Listening(c) /\ st' = [st EXCEPT ![c] = "gone"] /\ pend' = [pend EXCEPT ![c] = <<>>] /\ UNCHANGED <<inbox, todo, nar>>
Forget(c, n) == st[c] = "gone" /\ n < Len(inbox[c]) /\ inbox' = [inbox EXCEPT ![c] = SubSeq(@, 1, n)] /\ UNCHANGED <<todo, pend, st, nar>>
=============================================================================
