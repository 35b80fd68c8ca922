------------------------------ MODULE MCUnify ------------------------------
(* Unification, exhaustively on all pairs of a small universe of terms:      *)
(* soundness (the substitution makes the pattern equal to the other term)    *)
(* and completeness (found whenever some variable-free-image substitution    *)
(* exists).  Dumps all pairs for replay into the implementation.             *)
EXTENDS NarTerm, Json, IOUtils, SequencesExt
CONSTANT Deep
VARIABLES a, b
A0 == { <<"n","a">>, <<"n","b">>, <<"i","x">>, <<"d","x">>, <<"q","y">> }
G0 == { <<"n","a">>, <<"n","b">> }
Inner == { <<"seq", <<x>>>> : x \in A0 } \cup { Stmt("inh", x, y) : x \in {<<"n","a">>,<<"i","x">>}, y \in {<<"n","b">>,<<"i","x">>} }
L1 == A0 \cup { Stmt(c, x, y) : c \in {"inh","sim"}, x \in A0, y \in A0 }
         \cup { <<tg, <<x>>>> : tg \in {"neg","se","seq"}, x \in A0 }
         \cup { <<tg, <<x, y>>>> : tg \in {"seq","prod"}, x \in A0, y \in {<<"n","a">>,<<"i","x">>,<<"d","x">>} }
         \cup { Img(x, k, <<y>>) : x \in {<<"n","a">>,<<"i","x">>}, k \in {0,1}, y \in {<<"n","a">>,<<"i","x">>} }
L2 == { Stmt("inh", x, y) : x \in Inner \cup {<<"i","x">>}, y \in Inner \cup {<<"i","x">>} }
U == IF Deep THEN L1 \cup L2 ELSE L1
Cases == { [a |-> x, b |-> y] : x \in U, y \in U }
ASSUME ndJsonSerialize(IOEnv.OUT, SetToSeq(Cases))
Init == a \in U /\ b \in U
Next == UNCHANGED <<a, b>>
Spec == Init /\ [][Next]_<<a,b>>

Sound == LET u == Unify(a, b) IN u.ok => /\ Subst(a, u.env) = b
                                         /\ \A k \in 1..Len(u.env) : ~IsVar(u.env[k][2]) /\ u.env[k][1] \in Vars(a)
(* candidate images of variables: non-variable subterms of b *)
Imgs == { t \in Subterms(b) : ~IsVar(t) }
VarSeq == SetToSeq(Vars(a))
Envs == { [k \in 1..Len(VarSeq) |-> <<VarSeq[k], f[k]>>] : f \in [1..Len(VarSeq) -> Imgs] }
Complete == (\E en \in Envs : Subst(a, en) = b) => Unifies(a, b)
SelfGround == Vars(a) = {} => Unifies(a, a) /\ Unify(a, a).env = <<>>
OneSided == (Vars(b) # {} /\ Vars(a) = {}) => ~Unifies(a, b)
=============================================================================
