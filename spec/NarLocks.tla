------------------------------ MODULE NarLocks ------------------------------
(* Locks of the reasoner: many readers or one writer; a waiting writer makes  *)
(* new readers wait.  A request is the situation in which a thread asks for a *)
(* lock: [th |-> thread, held |-> {<<lock, written>>}, l |-> lock, w |-> for   *)
(* writing].  Each thread has only finitely many kinds of requests; a deadlock *)
(* is a set of requests of different threads which block each other.          *)
EXTENDS Naturals, Sequences, FiniteSets, TLC
HoldsAny(c, l) == \E h \in c.held : h[1] = l
(* alone: a thread which requests what it holds itself, one of both for writing, waits forever *)
Alone(c) == \E h \in c.held : h[1] = c.l /\ (h[2] \/ c.w)
(* both situations can exist at the same time *)
Compatible(a, b) == a.th # b.th /\ \A h \in a.held : \A g \in b.held : h[1] = g[1] => ~h[2] /\ ~g[2]
BlockedBy(a, b) == \/ \E h \in b.held : h[1] = a.l /\ (a.w \/ h[2])
                   \/ ~a.w /\ b.w /\ b.l = a.l /\ ~HoldsAny(b, b.l)   \* behind a waiting writer
Stuck(D) == \A a \in D : Alone(a) \/ \E b \in D \ {a} : BlockedBy(a, b)
PairwiseOk(D) == \A a \in D : \A b \in D \ {a} : Compatible(a, b)
Cyclic2(a, b) == Compatible(a, b) /\ BlockedBy(a, b) /\ BlockedBy(b, a)
Cyclic3(a, b, c) == PairwiseOk({a, b, c}) /\ BlockedBy(a, b) /\ BlockedBy(b, c) /\ BlockedBy(c, a)
(* a deadlock contains a thread which blocks itself or a cycle of threads which block each other *)
Deadlock(C) == \/ \E a \in C : Alone(a)
               \/ \E a, b \in C : Cyclic2(a, b)
               \/ \E a, b, c \in C : Cyclic3(a, b, c)
=============================================================================
