------------------------------ MODULE MCWorkers ------------------------------
(* The threads of the reasoner and their locks: the main thread (input, cycle, *)
(* procedural steps), the deriver worker and the store worker, connected by    *)
(* bounded channels.  Each thread executes programs: sequences of locking,     *)
(* unlocking, sending and receiving.  A lock has many readers or one writer,   *)
(* and new readers wait behind a waiting writer.                               *)
(* Checked: no deadlock, mutual exclusion, every message is processed, and the *)
(* main thread is never stuck.  The programs follow the code; that the code's  *)
(* requests cannot deadlock is checked on the recorded requests (TraceLocks),  *)
(* by the analysis of NarLocks, which is checked here to be right: it accepts  *)
(* the requests of these programs, and whenever the threads block each other   *)
(* (Variant # "ok") it has found that.                                         *)
EXTENDS NarLocks
CONSTANTS Variant, Cap
R(x) == <<"r", x>>
Wr(x) == <<"w", x>>
U(x) == <<"u", x>>
Snd(c) == <<"send", c>>
Rcv(c) == <<"recv", c>>
(* locks: S shared, Q questions, B tasks by term, N memory, T a task, E a belief, H handlers,
   G goals, P procedural memory, X a procedural belief *)
AddTask == << R("S"), Wr("N"), R("E"), U("E"), U("N"), U("S"), R("S"), R("T"), U("T"), U("S"), Wr("S"), U("S"), R("S"), Wr("B"), U("B"), U("S") >>
Cycle == << R("S"), R("Q"), R("B"), Wr("T"), U("T"), U("B"), U("Q"), U("S"),
            R("S"), Wr("Q"), R("N"), R("E"), R("H"), U("H"), U("E"), U("N"), U("Q"), U("S"),
            Wr("S"), R("T"), U("T"), U("S"), R("S"), R("B"), U("B"), U("S"), Snd("d") >>
Question == IF Variant = "inverted" THEN << Wr("Q"), Wr("S"), U("S"), U("Q") >> ELSE << R("S"), Wr("Q"), U("Q"), U("S") >>
List == IF Variant = "recursive" THEN << R("S"), R("S"), R("T"), U("T"), U("S"), U("S") >> ELSE << R("S"), R("T"), U("T"), U("S") >>
Limit == << R("S"), Wr("N"), R("E"), U("E"), U("N"), U("S") >>
Clear == << Wr("S"), Wr("B"), U("B"), U("S") >>
Step == IF Variant = "sendheld" THEN << Wr("G"), U("G"), R("P"), Snd("s"), Snd("s"), U("P") >>
        ELSE << Wr("G"), U("G"), Snd("s"), Snd("s"), R("P"), R("X"), Wr("G"), U("G"), U("X"), U("P"), Wr("P"), U("P") >>
Derive == << Rcv("d"), R("T"), U("T"), R("S"), R("N"), R("E"), R("T"), U("T"), U("E"), U("N"), U("S"), R("S"), Wr("Q"), R("H"), U("H"), U("Q"), U("S") >> \o AddTask
Store == << Rcv("s"), R("P"), Wr("X"), U("X"), U("P"), Wr("P"), R("X"), U("X"), U("P") >>
Progs == [ main |-> { AddTask, Cycle, Question, List, Limit, Clear, Step }, der |-> { Derive }, sto |-> { Store } ]
Threads == DOMAIN Progs
Locks == {"S", "Q", "B", "N", "T", "E", "H", "G", "P", "X"}
VARIABLES prog, pc, held, waiting, chan
vars == <<prog, pc, held, waiting, chan>>
(* held[t]: sequence of <<lock, written>>; waiting: threads waiting for a lock for writing *)
Init == prog = [t \in Threads |-> <<>>] /\ pc = [t \in Threads |-> 1] /\ held = [t \in Threads |-> <<>>] /\ waiting = {} /\ chan = [c \in {"d", "s"} |-> 0]
Holds(t) == { held[t][k] : k \in 1..Len(held[t]) }
Writers(x) == { t \in Threads : <<x, TRUE>> \in Holds(t) }
Readers(x) == { t \in Threads : <<x, FALSE>> \in Holds(t) }
Cmd(t) == prog[t][pc[t]]
Busy(t) == pc[t] <= Len(prog[t])
Pick(t) == ~Busy(t) /\ \E p \in Progs[t] : prog' = [prog EXCEPT ![t] = p] /\ pc' = [pc EXCEPT ![t] = 1] /\ UNCHANGED <<held, waiting, chan>>
(* the last lock taken of this name is released *)
Drop(s, x) == LET k == CHOOSE i \in 1..Len(s) : s[i][1] = x /\ \A j \in (i + 1)..Len(s) : s[j][1] # x IN SubSeq(s, 1, k - 1) \o SubSeq(s, k + 1, Len(s))
Exec(t) == /\ Busy(t)
           /\ LET c == Cmd(t) x == c[2] IN
              \/ /\ c[1] = "r" /\ Writers(x) = {} /\ ~\E u \in waiting : Cmd(u)[2] = x
                 /\ held' = [held EXCEPT ![t] = Append(@, <<x, FALSE>>)] /\ UNCHANGED <<waiting, chan>>
              \/ /\ c[1] = "w" /\ t \in waiting /\ Writers(x) = {} /\ Readers(x) = {}
                 /\ held' = [held EXCEPT ![t] = Append(@, <<x, TRUE>>)] /\ waiting' = waiting \ {t} /\ UNCHANGED chan
              \/ /\ c[1] = "u" /\ held' = [held EXCEPT ![t] = Drop(@, x)] /\ UNCHANGED <<waiting, chan>>
              \/ /\ c[1] = "send" /\ chan[x] < Cap /\ chan' = [chan EXCEPT ![x] = @ + 1] /\ UNCHANGED <<held, waiting>>
              \/ /\ c[1] = "recv" /\ chan[x] > 0 /\ chan' = [chan EXCEPT ![x] = @ - 1] /\ UNCHANGED <<held, waiting>>
           /\ pc' = [pc EXCEPT ![t] = @ + 1] /\ UNCHANGED prog
Announce(t) == Busy(t) /\ Cmd(t)[1] = "w" /\ t \notin waiting /\ waiting' = waiting \cup {t} /\ UNCHANGED <<prog, pc, held, chan>>
Act(t) == Pick(t) \/ Exec(t) \/ Announce(t)
Next == \E t \in Threads : Act(t)
Fairness == \A t \in Threads : WF_vars(Act(t)) /\ SF_vars(Exec(t))
Spec == Init /\ [][Next]_vars /\ Fairness
(* ---- properties ---- *)
Exclusive == \A x \in Locks : Writers(x) # {} => Cardinality(Writers(x)) = 1 /\ Readers(x) = {}
Released == \A t \in Threads : ~Busy(t) => held[t] = <<>>
AtReceive(t) == Busy(t) /\ Cmd(t)[1] = "recv"
(* whatever happens, some thread can act, and the main thread is always able to act again *)
Free == ENABLED Next
MainGoesOn == []<>(ENABLED Act("main") /\ ~Busy("main")) 
Processed == \A c \in {"d", "s"} : (chan[c] > 0) ~> (chan[c] = 0 \/ ENABLED Act(IF c = "d" THEN "der" ELSE "sto"))
(* ---- the analysis of the requests of these programs ---- *)
RECURSIVE HeldAt(_, _)
HeldAt(p, k) == IF k = 1 THEN <<>> ELSE LET h == HeldAt(p, k - 1) c == p[k - 1]
                IN CASE c[1] = "r" -> Append(h, <<c[2], FALSE>>) [] c[1] = "w" -> Append(h, <<c[2], TRUE>>) [] c[1] = "u" -> Drop(h, c[2]) [] OTHER -> h
Requests == UNION { UNION { { [th |-> t, held |-> { HeldAt(p, k)[i] : i \in 1..Len(HeldAt(p, k)) }, l |-> p[k][2], w |-> p[k][1] = "w"]
                              : k \in { j \in 1..Len(p) : p[j][1] \in {"r", "w"} } } : p \in Progs[t] } : t \in Threads }
ASSUME AnalysisAccepts == Variant = "ok" => ~Deadlock(Requests)
(* threads which cannot go on because of locks *)
Blocked == { t \in Threads : Busy(t) /\ Cmd(t)[1] \in {"r", "w"} /\ ~ENABLED Act(t) }
LockCycle == \E D \in SUBSET Threads : D # {} /\ D \subseteq Blocked /\ \A t \in D :
               LET x == Cmd(t)[2]
               IN \E u \in D : (u # t \/ x \in { h[1] : h \in Holds(t) }) /\ (<<x, TRUE>> \in Holds(u) \/ (Cmd(t)[1] = "w" /\ <<x, FALSE>> \in Holds(u)) \/ (Cmd(t)[1] = "r" /\ u \in waiting /\ Cmd(u)[2] = x))
Found == LockCycle => Deadlock(Requests)
ASSUME PrintT(<<"variant", Variant, "requests", Cardinality(Requests), "analysis finds a deadlock", Deadlock(Requests)>>)
=============================================================================
