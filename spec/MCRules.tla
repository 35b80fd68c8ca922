------------------------------ MODULE MCRules ------------------------------
(* Two-premise rules on all ordered pairs of a small universe of premises.   *)
EXTENDS NarRules, Json, IOUtils, SequencesExt
CONSTANT Big
VARIABLES a, b
N == { <<"n","a">>, <<"n","b">>, <<"n","c">> }
V == N \cup { <<"i","x">> }
P0 == { Stmt(cp, x, y) : cp \in {"inh","sim"}, x \in N, y \in N }
P1 == { Stmt(cp, x, y) : cp \in {"impl","pimp","equiv"}, x \in {<<"n","a">>,<<"n","b">>,<<"i","x">>}, y \in {<<"n","a">>,<<"n","b">>,<<"i","x">>} }
P2 == { Inh(x, Cmp("si", <<y>>)) : x \in {<<"n","a">>,<<"n","b">>}, y \in {<<"n","a">>,<<"n","b">>} }
PV == { Inh(x, y) : x \in {<<"n","a">>, <<"i","x">>}, y \in {<<"n","b">>, <<"i","x">>} }
P3 == { Stmt("impl", x, y) : x \in PV, y \in PV }
P4 == { Stmt("impl", Cmp("conj", <<x, y>>), z) : x \in PV, y \in {Inh(<<"n","a">>,<<"n","b">>), Inh(<<"i","x">>,<<"n","c">>)}, z \in {Inh(<<"i","x">>,<<"n","c">>), <<"n","c">>} }
P5 == { Stmt("impl", Cmp("conj", <<x, y, z>>), z) : x \in PV, y \in PV, z \in {Inh(<<"i","x">>,<<"n","c">>)} }
U == P0 \cup P1 \cup P2 \cup PV \cup P3 \cup P4 \cup (IF Big THEN P5 \cup N ELSE {})
Pu == {"J","Q"}
Cases == { [a |-> x, b |-> y, pa |-> "J", pb |-> "J"] : x \in U, y \in U }
         \cup { [a |-> x, b |-> y, pa |-> "Q", pb |-> "J"] : x \in P1 \cup P3, y \in P0 \cup PV \cup N }
ASSUME ndJsonSerialize(IOEnv.OUT, SetToSeq(Cases))
T1 == [f |-> 9000, c |-> 8000]   T2 == [f |-> 3000, c |-> 5000]
Init == a \in U /\ b \in U
Next == UNCHANGED <<a, b>>
Spec == Init /\ [][Next]_<<a,b>>
R == TwoPremise(a, "J", T1, b, "J", T2)
Names(t) == { x \in Subterms(t) : x[1] = "n" }
(* conclusions are built from the material of the premises only *)
Material == \A x \in R : Names(x.t) \subseteq Names(a) \cup Names(b)
(* the order in which the premises are presented is irrelevant *)
Symmetric == R = TwoPremise(b, "J", T2, a, "J", T1)
(* no conclusion is more confident than its more confident premise *)
Conf == \A x \in R : x.tv.c <= Max2(T1.c, T2.c) /\ ValidTv(x.tv)
(* classification: inheritance pairs *)
DedSound == (IsStmtC(a,"inh") /\ IsStmtC(b,"inh") /\ a[4] = b[3] /\ a[3] # b[4])
            => \E x \in R : x.t = Inh(a[3], b[4]) /\ x.tv = Ded(T1, T2)
NoSelf == \A x \in R : (IsStmtC(x.t,"sim")) => x.t[3] # x.t[4]
=============================================================================
