---------------------------- MODULE TraceTicTac ----------------------------
(* Validation of what whole runs of the tic-tac-toe environment print.        *)
EXTENDS NarTicTac, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, games
Ev == Trace[l + 1]
Ok(x) ==
  CASE x.op = "start" -> NewGame /\ wish' = 0 /\ games' = 0
    [] x.op = "call" -> x.k \in 0..8 /\ Call(x.k + 1) /\ UNCHANGED games
    [] x.op = "stim" -> /\ x.s = Shown(cell) /\ UNCHANGED games
                        /\ \/ Ask \/ See
    [] x.op = "state" -> /\ Len(x.cell) = 9
                         /\ (IF turn = "a" THEN MoveA ELSE \E k \in 1..9 : MoveB(k))
                         /\ cell' = x.cell /\ x.a = (turn = "a") /\ UNCHANGED games
    [] x.op = "winner" -> Win(x.w) /\ games' = games + 1
    [] x.op = "draw" -> Draw /\ games' = games + 1
    [] x.op = "end" -> phase = "over" /\ games >= x.n /\ UNCHANGED <<tvars, games>>
    [] OTHER -> FALSE
Init == l = 0 /\ cell = Empty /\ turn = "a" /\ phase = "turn" /\ wish = 0 /\ games = 0 /\ TLCSet(17, 0)
(* not printed: the game goes on after a move of the reasoner, the next game begins *)
Silent == /\ \/ Ev.op \notin {"winner", "draw"} /\ GoOn
             \/ phase = "over" /\ Ev.op # "end" /\ NewGame /\ UNCHANGED wish
          /\ UNCHANGED games
Next == /\ l < Len(Trace)
        /\ \/ Ok(Ev) /\ l' = l + 1 /\ (IF l' > TLCGet(17) THEN TLCSet(17, l') ELSE TRUE)
           \/ Silent /\ l' = l
Spec == Init /\ [][Next]_<<l, tvars, games>>
Accepted == IF TLCGet(17) = Len(Trace) THEN TRUE ELSE PrintT(<<"REJECTED", TLCGet(17) + 1>>) /\ FALSE
=============================================================================
