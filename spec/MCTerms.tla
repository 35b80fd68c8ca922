------------------------------ MODULE MCTerms ------------------------------
(* Structural operations on all pairs of a small universe of terms.          *)
EXTENDS NarTerm, Json, IOUtils, SequencesExt
VARIABLES a, b
A0 == { <<"n","a">>, <<"n","b">>, <<"i","a">>, <<"d","a">>, <<"q","a">> }
E2 == { <<x, y>> : x \in {<<"n","a">>,<<"n","b">>}, y \in {<<"n","a">>,<<"n","b">>} }
L1 == A0 \cup { Stmt(c, x, y) : c \in Copulas, x \in {<<"n","a">>,<<"n","b">>}, y \in {<<"n","a">>,<<"i","a">>} }
         \cup { <<tg, es>> : tg \in CompoundTags \ {"neg"}, es \in E2 \cup {<<<<"n","a">>>>} }
         \cup { <<"neg", <<x>>>> : x \in A0 }
         \cup { Img(x, k, <<y>>) : x \in {<<"n","a">>,<<"n","b">>}, k \in {0,1}, y \in {<<"n","a">>,<<"n","b">>} }
U == L1 \cup { Inh(<<"se", <<<<"prod", es>>>>>>, <<"n","^op">>) : es \in E2 }
Cases == { [a |-> x, b |-> y] : x \in U, y \in U }
ASSUME ndJsonSerialize(IOEnv.OUT, SetToSeq(Cases))
Init == a \in U /\ b \in U
Next == UNCHANGED <<a,b>>
Spec == Init /\ [][Next]_<<a,b>>
SubSelf == SubtermSeq(a)[1] = a /\ { SubtermSeq(a)[k] : k \in 1..Len(SubtermSeq(a)) } = Subterms(a)
CxPos == Complexity(a) >= 1 /\ Complexity(a) <= Len(SubtermSeq(a))
CountSub == (CountOcc(a, b) > 0) => b \in Subterms(a)
Repl == CountOcc(a, b) = 0 => Replace(a, b, <<"n","z">>) = a
OpEnc == IsOpTerm(a) => MkOp(OpArgs(a), OpName(a)) = a
=============================================================================
