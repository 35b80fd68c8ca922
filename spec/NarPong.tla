------------------------------ MODULE NarPong ------------------------------
(* The Pong environment.  State of the environment:                           *)
(*   szX, szY      size of the field                                          *)
(*   ballX, ballY  position of the ball, vX, vY its velocity                  *)
(*   mulVX         additional steps of the ball to the side                   *)
(*   batX, batVX   position of the bat and commanded direction, batWidth      *)
(*   hits, misses, t                                                          *)
(* The bat is at ballY = 0.                                                   *)
EXTENDS Integers
Abs(x) == IF x < 0 THEN 0 - x ELSE x
Min(a, b) == IF a < b THEN a ELSE b
Max(a, b) == IF a < b THEN b ELSE a
(* the ball bounces at the walls *)
Bounced(e) == [e EXCEPT !.vX = IF e.ballX >= e.szX - 1 THEN -1 ELSE IF e.ballX <= 0 THEN 1 ELSE @,
                        !.vY = IF e.ballY >= e.szY - 1 THEN -1 ELSE IF e.ballY <= 0 THEN 1 ELSE @]
(* to the side it moves every second step *)
Moved(e) == [e EXCEPT !.ballX = @ + (IF e.t % 2 = 1 THEN e.vX ELSE 0) + e.vX * e.mulVX, !.ballY = @ + e.vY]
AtBat(e) == e.ballY = 0
Near(e) == Abs(e.ballX - e.batX) <= e.batWidth
Scored(e) == IF ~AtBat(e) THEN e ELSE IF Near(e) THEN [e EXCEPT !.hits = @ + 1] ELSE [e EXCEPT !.misses = @ + 1]
(* the ball is over: it reached the bat's side or a side wall *)
Out(e) == AtBat(e) \/ e.ballX = 0 \/ e.ballX >= e.szX - 1
(* division rounds towards zero *)
Half(x) == IF x >= 0 THEN x \div 2 ELSE 0 - ((0 - x) \div 2)
BatMoved(e) == [e EXCEPT !.batX = Max(2 * e.batWidth, Min(e.szX - 1 + e.batWidth, @ + Half(e.batVX * e.batWidth)))]
(* everything before a new ball is placed *)
Played(e) == Scored(Moved(Bounced([e EXCEPT !.t = @ + 1])))
NewBalls(e) == { [e EXCEPT !.ballX = x, !.ballY = Half(e.szY) + y, !.vX = v] : x \in 0..(e.szX - 1), y \in 0..(Half(e.szY) - 1), v \in {1, -1} }
IsNewBall(e, f) == /\ f.ballX \in 0..(e.szX - 1) /\ f.ballY \in Half(e.szY)..(Half(e.szY) + Half(e.szY) - 1) /\ f.vX \in {1, -1}
                   /\ f = [e EXCEPT !.ballX = f.ballX, !.ballY = f.ballY, !.vX = f.vX]
Steps(e) == LET p == Played(e) IN { BatMoved(f) : f \in (IF Out(p) THEN NewBalls(p) ELSE {p}) }
(* f is a successor of e; spawned: a new ball was placed *)
IsStep(e, f, spawned) == LET p == Played(e) IN /\ spawned = Out(p)
                                               /\ f.batX = BatMoved(p).batX
                                               /\ LET g == [f EXCEPT !.batX = p.batX] IN IF Out(p) THEN IsNewBall(p, g) ELSE g = p
(* what the reasoner perceives *)
Percept(e) == IF Near(e) THEN "c" ELSE IF e.ballX < e.batX THEN "l" ELSE "r"
Command(e, op) == [e EXCEPT !.batVX = CASE op = "^L" -> 1 [] op = "^R" -> -1]
Start == [szX |-> 50, szY |-> 20, ballX |-> 25, ballY |-> 4, batX |-> 20, batVX |-> 0, batWidth |-> 6, vX |-> 1, vY |-> 1, mulVX |-> 0, hits |-> 0, misses |-> 0, t |-> 0]
=============================================================================
