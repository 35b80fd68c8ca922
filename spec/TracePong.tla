----------------------------- MODULE TracePong -----------------------------
(* Validation of single steps of the real environment from arbitrary states,  *)
(* and of whole runs of the reasoner in it.  Of whole runs only what is       *)
(* printed is known: position and velocity of a new ball are found by TLC.    *)
EXTENDS NarPong, Sequences, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, e
RECURSIVE Commands(_, _)
Commands(s, ops) == IF ops = <<>> THEN s ELSE Commands(Command(s, Head(ops)), Tail(ops))
Ev == Trace[l + 1]
Prints(p, old) == (IF p.hits > old.hits THEN <<"good">> ELSE IF p.misses > old.misses THEN <<"bad">> ELSE <<>>) \o (IF Out(p) THEN <<"respawn ball">> ELSE <<>>)
Balls(p, x) == { [p EXCEPT !.ballX = x, !.ballY = y, !.vX = v] : y \in Half(p.szY)..(2 * Half(p.szY) - 1), v \in {1, -1} }
It(x) ==
  /\ x.x = e.ballX /\ x.bat = e.batX /\ x.diff = e.ballX - e.batX /\ x.p = "0-1-x" \o Percept(e)
  /\ \A k \in 1..Len(x.calls) : x.calls[k] \in {"^L", "^R"}
  /\ LET c == Commands(e, x.calls)  p == Played(c)
     IN  /\ x.out = Prints(p, c) /\ x.hits = p.hits /\ x.misses = p.misses /\ x.t = p.t
         /\ (IF Out(p) /\ x.x2 >= 0 THEN x.x2 < p.szX ELSE TRUE)
         /\ \E f \in (IF Out(p) THEN Balls(p, IF x.x2 >= 0 THEN x.x2 ELSE 0) ELSE {p}) : e' = BatMoved(f)
Ok(x) ==
  CASE x.op = "make" -> x.e = Start /\ UNCHANGED e
    [] x.op = "step" -> IsStep(x.a, x.b, x.spawned) /\ UNCHANGED e
    [] x.op = "start" -> e' = Start
    [] x.op = "it" -> It(x)
    [] x.op = "end" -> x.hits = e.hits /\ x.misses = e.misses /\ x.ratio = TRUE /\ e.t > 5000 /\ UNCHANGED e
    [] OTHER -> FALSE
Init == l = 0 /\ e = Start /\ TLCSet(17, 0)
Next == l < Len(Trace) /\ Ok(Ev) /\ l' = l + 1 /\ (IF l' > TLCGet(17) THEN TLCSet(17, l') ELSE TRUE)
Spec == Init /\ [][Next]_<<l, e>>
Accepted == IF TLCGet(17) = Len(Trace) THEN TRUE ELSE PrintT(<<"REJECTED", TLCGet(17) + 1>>) /\ FALSE
=============================================================================
