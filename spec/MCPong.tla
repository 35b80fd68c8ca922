------------------------------ MODULE MCPong ------------------------------
(* Pong from its start under all sequences of commands; counters and time are *)
(* kept modulo 2, ages are bounded to show that every ball comes to an end.    *)
EXTENDS NarPong, TLC
CONSTANTS SX, SY, BW
VARIABLES e, age, last      \* age: steps since the ball was placed; last: what the last step did
Init == e = [Start EXCEPT !.szX = SX, !.szY = SY, !.batWidth = BW, !.ballX = SX \div 2, !.ballY = SY \div 5, !.batX = 2 * BW] /\ age = 0 /\ last = "-"
Wrap(f) == [f EXCEPT !.t = @ % 2, !.hits = 0, !.misses = 0]
Env == LET p == Played(e) IN \E f \in Steps(e) :
         /\ e' = Wrap(f) /\ age' = (IF Out(p) THEN 0 ELSE age + 1)
         /\ last' = (IF p.hits > e.hits THEN "hit" ELSE IF p.misses > e.misses THEN "miss" ELSE IF Out(p) THEN "out" ELSE "-")
         /\ Assert(IsStep(e, f, Out(p)), "IsStep") /\ Assert(p.hits - e.hits + p.misses - e.misses = (IF AtBat(p) THEN 1 ELSE 0), "count")
Op == \E op \in {"^L", "^R"} : e' = Command(e, op) /\ UNCHANGED <<age, last>>
Next == Env \/ Op
Spec == Init /\ [][Next]_<<e, age, last>>
(* the ball stays on the field, the bat can reach every position and stays within its range *)
OnField == e.ballX \in 0..(SX - 1) /\ e.ballY \in 0..(SY - 1) /\ e.vX \in {1, -1} /\ e.vY \in {1, -1}
BatRange == e.batX \in (2 * BW)..Max(2 * BW, SX - 1 + BW)
Ends == age <= 2 * SY
PerceptExact == /\ Percept(e) \in {"c", "l", "r"}
                /\ (Percept(e) = "c") = (Abs(e.ballX - e.batX) <= BW) /\ (Percept(e) = "l" => e.ballX < e.batX) /\ (Percept(e) = "r" => e.ballX > e.batX)
=============================================================================
