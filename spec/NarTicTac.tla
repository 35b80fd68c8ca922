----------------------------- MODULE NarTicTac -----------------------------
(* Tic-tac-toe of the reasoner ("a") against an opponent ("b"), cells 1..9.   *)
(* The reasoner is told the situation (a stimulus), may call operations ^0..^8*)
(* and the last one called is its move, if the cell is free.                  *)
EXTENDS Naturals, Sequences, FiniteSets
VARIABLES cell,    \* cell -> " ", "a", "b"
          turn,    \* who moves next
          phase,   \* "see" (has to be shown the result of the opponent's move), "turn", "asked", "moved" (outcome not yet announced), "over"
          wish     \* cell of the last called operation which was not yet tried, 0: none
tvars == <<cell, turn, phase, wish>>
Lines == {<<1,2,3>>, <<4,5,6>>, <<7,8,9>>, <<1,4,7>>, <<2,5,8>>, <<3,6,9>>, <<1,5,9>>, <<3,5,7>>}
Free(b) == { k \in 1..9 : b[k] = " " }
Winners(b) == { p \in {"a", "b"} : \E L \in Lines : \A k \in 1..3 : b[L[k]] = p }
Over(b) == Winners(b) # {} \/ Free(b) = {}
Empty == [k \in 1..9 |-> " "]
NewGame == cell' = Empty /\ turn' = "a" /\ phase' = "turn"
Shown(b) == [k \in 1..9 |-> IF b[k] = " " THEN "S" ELSE b[k]]
(* an operation can be called at any time *)
Call(k) == wish' = k /\ UNCHANGED <<cell, turn, phase>>
(* the reasoner is asked; when it is asked again then it had no move or an impossible one *)
Ask == /\ turn = "a" /\ phase \in {"turn", "asked"} /\ (phase = "asked" /\ wish # 0 => wish \notin Free(cell))
       /\ wish' = (IF phase = "asked" THEN 0 ELSE wish) /\ phase' = "asked" /\ UNCHANGED <<cell, turn>>
MoveA == /\ turn = "a" /\ phase = "asked" /\ wish \in Free(cell)
         /\ cell' = [cell EXCEPT ![wish] = "a"] /\ wish' = 0 /\ phase' = "moved" /\ UNCHANGED turn
MoveB(k) == /\ turn = "b" /\ phase = "turn" /\ k \in Free(cell)
            /\ cell' = [cell EXCEPT ![k] = "b"] /\ phase' = "moved" /\ UNCHANGED <<turn, wish>>
Win(p) == phase = "moved" /\ Winners(cell) = {p} /\ phase' = "over" /\ UNCHANGED <<cell, turn, wish>>
Draw == phase = "moved" /\ Winners(cell) = {} /\ Free(cell) = {} /\ phase' = "over" /\ UNCHANGED <<cell, turn, wish>>
Other(p) == IF p = "a" THEN "b" ELSE "a"
(* the game goes on; after a move of the opponent the reasoner is shown the situation *)
See == phase = "moved" /\ ~Over(cell) /\ turn = "b" /\ turn' = "a" /\ phase' = "turn" /\ UNCHANGED <<cell, wish>>
GoOn == phase = "moved" /\ ~Over(cell) /\ turn = "a" /\ turn' = "b" /\ phase' = "turn" /\ UNCHANGED <<cell, wish>>
=============================================================================
