------------------------------ MODULE MCRules1 ------------------------------
(* One-premise rules on an enumerated universe of premises.                  *)
EXTENDS NarRules, Json, IOUtils, SequencesExt
VARIABLE a
N == { <<"n","a">>, <<"n","b">>, <<"i","x">> }
S2 == { <<x, y>> : x \in N, y \in N }
S1 == { <<x>> : x \in N }
S3 == { <<x, y, <<"n","c">>>> : x \in N, y \in N }
S4 == { <<x, <<"n","b">>, <<"n","c">>, <<"n","d">>>> : x \in N }
Ss == S1 \cup S2 \cup S3 \cup S4
C == { <<tg, es>> : tg \in {"ii","ei","prod","si","se","par","seq","conj"}, es \in Ss }
     \cup { Img(<<"n","r">>, k, es) : k \in {0,1,2}, es \in S1 \cup S2 }
U == { Stmt(cp, x, <<"n","p">>) : cp \in Copulas, x \in C }
     \cup { Stmt(cp, <<"n","s">>, x) : cp \in Copulas, x \in C }
     \cup { Stmt("sim", <<t1, e1>>, <<t2, e2>>) : t1 \in {"si","se"}, t2 \in {"si","se"}, e1 \in S1 \cup S2, e2 \in S1 \cup S2 }
     \cup { Inh(<<"ii", e1>>, <<"ii", e2>>) : e1 \in S2, e2 \in S2 }
     \cup { Inh(<<"prod", e1>>, Img(<<"n","r">>, k, e2)) : e1 \in S2, e2 \in S1, k \in {0,1} }
     \cup { <<"neg", <<x>>>> : x \in C \cup N }
Cases == { [a |-> x] : x \in U }
ASSUME ndJsonSerialize(IOEnv.OUT, SetToSeq(Cases))
T1 == [f |-> 9000, c |-> 8000]
Init == a \in U
Next == UNCHANGED a
Spec == Init /\ [][Next]_a
R == OnePremise(a, T1)
Names(t) == { x \in Subterms(t) : IsAtom(x) }
Material == \A x \in R : Names(x.t) \subseteq Names(a)
KeepsConf == \A x \in R : x.tv.c = T1.c /\ (a[1] # "neg" => x.tv = T1)
(* relation images: product -> image -> product gives the premise back *)
RoundTrip == \A x \in R : (IsStmtC(a,"inh") /\ IsC(a[3],"prod") /\ x.t[4][1] = "img" /\ x.b = 80)
                => \E y \in OnePremise(x.t, T1) : y.t = a
=============================================================================
