------------------------------ MODULE MCVision ------------------------------
(* A classifier which learns: what it has learned it recognises again, nothing*)
(* is forgotten, evidence is counted.  The laws of image maps are assumptions *)
(* checked by TLC for all small maps.                                         *)
EXTENDS NarVision, TLC
CONSTANTS Cells, Vals, MaxN, MaxP
VARIABLES ps, last, seen
vars == <<ps, last, seen>>
Stim == { <<s>> : s \in [1..Cells -> 0..Vals] }
Small == { [w |-> w, h |-> 2, a |-> [k \in 1..(2 * w) |-> (k * 7 + w) % 5]] : w \in 1..3 }
ASSUME \A m \in Small : Crop(m, 0, 0, m.h, m.w) = m
ASSUME \A m \in Small : Convo(m, [w |-> 1, h |-> 1, a |-> <<1>>]) = m
ASSUME \A m \in Small : Convo(m, [w |-> 3, h |-> 3, a |-> <<0,0,0,0,1,0,0,0,0>>]) = m
ASSUME \A r \in 0..3, y, x \in -4..4 : InCircle(0, 0, r, y, x) = InCircle(0, 0, r, -x, y)
ASSUME \A by, bx \in -2..2, y, x \in -3..3 : OnLine(0, 0, by, bx, y, x) = OnLine(by, bx, 0, 0, y, x)
ASSUME \A by, bx \in -2..2 : OnLine(0, 0, by, bx, by, bx) /\ OnLine(0, 0, by, bx, 0, 0)
ASSUME \A a, b \in (-2..2) \X (-2..2) : AdMul(a, b) = AdMul(b, a) /\ AdSub(AdAdd(a, b), b) = a
Classify(s, add) ==
  \E r \in 0..Len(ps) :
    /\ RealMatch(ps, s, 1, r)
    /\ IF add THEN /\ (r = 0 => Len(ps) < MaxP) /\ (r > 0 => ps[r].n < MaxN)
                   /\ ps' = RealLearned(ps, s, 0, r) /\ last' = [s |-> s, k |-> IF r = 0 THEN Len(ps) + 1 ELSE r] /\ seen' = seen + 1
              ELSE UNCHANGED vars
Init == ps = <<>> /\ last = [s |-> <<>>, k |-> 0] /\ seen = 0
Next == \E s \in Stim, add \in BOOLEAN : Classify(s, add)
Spec == Init /\ [][Next]_vars
RECURSIVE Total(_)
Total(k) == IF k = 0 THEN 0 ELSE ps[k].n + Total(k - 1)
Counted == Total(Len(ps)) = seen
Recognised == last.k > 0 => Maybe(last.s, ps[last.k], 1) /\ ~RealMatch(ps, last.s, 1, 0)
InRange == \A k \in 1..Len(ps) : \A j \in 1..Cells : ps[k].ch[1][j] >= 0 /\ ps[k].ch[1][j] <= ps[k].n * Vals
Decided == \A s \in Stim : \E r \in 0..Len(ps) : RealMatch(ps, s, 1, r)
Kept == [][Len(ps') >= Len(ps) /\ \A k \in 1..Len(ps) : ps'[k].n >= ps[k].n]_vars
=============================================================================
