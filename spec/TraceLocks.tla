----------------------------- MODULE TraceLocks -----------------------------
(* Validation of recorded sessions with the worker threads: nothing panicked, *)
(* everything still works afterwards, and no schedule of the recorded lock    *)
(* requests is a deadlock.                                                    *)
EXTENDS NarLocks, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
W(b, why) == IF b THEN TRUE ELSE PrintT(<<"WHY", why>>) /\ FALSE
(* the requests are numbered; e.by gives for each lock the numbers of the requests which hold it or request it for writing *)
Req(c) == [th |-> c.th, held |-> { <<c.held[k][1], c.held[k][2]>> : k \in 1..Len(c.held) }, l |-> c.req[1], w |-> c.req[2]]
OkLocks(e) ==
  LET C == [k \in 1..Len(e.ctx) |-> Req(e.ctx[k])]
      by(a) == e.by[ToString(a.l)]
      say(D) == W(FALSE, <<"these requests can block each other", { e.ctx[k] : k \in D }>>)
      edges == UNION { { <<C[k].th, C[m].th>> : m \in { x \in { by(C[k])[i] : i \in 1..Len(by(C[k])) } : C[x].th # C[k].th /\ BlockedBy(C[k], C[x]) } } : k \in 1..Len(C) }
      tri == \E x, y \in edges : x[2] = y[1] /\ y[2] # x[1] /\ <<y[2], x[1]>> \in edges
  IN /\ \A k \in 1..Len(C) : IF Alone(C[k]) THEN say({k}) ELSE TRUE
     /\ \A k \in 1..Len(C) : \A i \in 1..Len(by(C[k])) : IF Cyclic2(C[k], C[by(C[k])[i]]) THEN say({k, by(C[k])[i]}) ELSE TRUE
     /\ tri => \A k \in 1..Len(C) : \A i \in 1..Len(by(C[k])) :
               LET b == by(C[k])[i]
               IN BlockedBy(C[k], C[b]) => \A j \in 1..Len(by(C[b])) : IF Cyclic3(C[k], C[b], C[by(C[b])[j]]) THEN say({k, b, by(C[b])[j]}) ELSE TRUE
OkProbe(e) == /\ W(e.panics = <<>>, "a thread panicked")
              /\ W(e.alive, "a worker thread has ended")
              /\ W(e.derived, "the deriver does not work any more")
              /\ W(e.answered, "a question is not answered any more")
              /\ W(e.learned, "nothing is learned any more")
              /\ W(e.held = 0, "a lock is still held")
Ok(e) == CASE e.op = "start" -> TRUE
           [] e.op = "probe" -> OkProbe(e)
           [] e.op = "locks" -> OkLocks(e)
           [] e.op = "env" -> W(e.rc = 0 /\ e.panics = 0, "an environment did not run to its end")
           [] OTHER -> FALSE
Init == l = 0
Next == /\ l < Len(Trace)
        /\ IF Ok(Trace[l + 1]) THEN TRUE ELSE PrintT(<<"REJECTED", l + 1>>) /\ FALSE
        /\ l' = l + 1
Spec == Init /\ [][Next]_l
Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
