------------------------------ MODULE MCTruth ------------------------------
(* Design check of the truth functions on a grid of truth values, and the    *)
(* source of the grid cases which are replayed into the implementation.      *)
EXTENDS NarTruth, Sequences, TLC, Json, IOUtils, SequencesExt, FiniteSets
CONSTANT Fs, Cs
VARIABLES a, b
Tvs == { [f |-> x, c |-> y] : x \in Fs, y \in Cs }
Fns == {"ded","abd","ind","rev","comp","int","neg","dedGoal"}
Cases == { [fn |-> fn, a |-> x, b |-> y] : fn \in Fns, x \in Tvs, y \in Tvs }
ASSUME ndJsonSerialize(IOEnv.OUT, SetToSeq(Cases))
Init == a \in Tvs /\ b \in Tvs
Next == UNCHANGED <<a, b>>
Spec == Init /\ [][Next]_<<a,b>>
e == 2
Valid == \A r \in {Ded(a,b), Abd(a,b), Ind(a,b), Rev(a,b), Comp(a,b), Inter(a,b), Neg(a), DedGoalB(a,b)} : ValidTv(r)
(* inference never makes evidence out of nothing *)
DedConf == Ded(a,b).c <= Min2(a.c, b.c) + e /\ Inter(a,b).c <= Min2(a.c, b.c) + e
WeakConf == Abd(a,b).c <= S \div 2 + e /\ Ind(a,b).c <= S \div 2 + e /\ Comp(a,b).c <= S \div 2 + e
RevSym == NearTv(Rev(a,b), Rev(b,a), e)
RevGrows == Rev(a,b).c >= Max2(a.c, b.c) - e
RevBetween == (a.c + b.c > 0) => /\ Rev(a,b).f >= Min2(a.f, b.f) - e
                                 /\ Rev(a,b).f <= Max2(a.f, b.f) + e
NegInv == Neg(Neg(a)) = a
CompSym == NearTv(Comp(a,b), Comp(b,a), e)
ExpRange == Exp(a) >= 0 /\ Exp(a) <= S /\ (a.f > S \div 2 => Exp(a) >= S \div 2)
=============================================================================
