----------------------------- MODULE MCTicTac -----------------------------
EXTENDS NarTicTac, TLC
Init == cell = Empty /\ turn = "a" /\ phase = "turn" /\ wish = 0
Next == \/ \E k \in 1..9 : Call(k)
        \/ Ask \/ MoveA \/ (\E k \in 1..9 : MoveB(k)) \/ (\E p \in {"a", "b"} : Win(p)) \/ Draw \/ See \/ GoOn
        \/ phase = "over" /\ NewGame /\ UNCHANGED wish
Spec == Init /\ [][Next]_tvars
Count(p) == Cardinality({ k \in 1..9 : cell[k] = p })
Alternate == IF phase \in {"turn", "asked"} THEN Count("a") = Count("b") + (IF turn = "a" THEN 0 ELSE 1)
             ELSE Count("a") = Count("b") + (IF turn = "a" THEN 1 ELSE 0)
OneWinner == Cardinality(Winners(cell)) <= 1
(* nobody moves after the end *)
Ended == Over(cell) => phase \in {"moved", "over"}
(* a game can always be continued *)
CanMove == phase = "turn" => Free(cell) # {}
Stay == [][phase = "over" => cell' = cell \/ cell' = Empty]_tvars
Once == [][\A k \in 1..9 : cell[k] # " " /\ cell' # Empty => cell'[k] = cell[k]]_tvars
=============================================================================
