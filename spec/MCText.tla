------------------------------- MODULE MCText -------------------------------
(* The concrete syntax over a small universe of terms: parsing inverts        *)
(* writing (so texts are unambiguous), no proper part of a text is the text   *)
(* of a term of the same kind, and decoration (punctuation, truth value,      *)
(* event marker, spaces around products) is independent of the term.          *)
EXTENDS NarText, Json, IOUtils, SequencesExt
CONSTANT Deep
VARIABLES t, p, d
Chars == [x \in {"a", "b", "op", "xu"} |->
            CASE x = "a" -> <<"a">> [] x = "b" -> <<"b">> [] x = "op" -> <<"^","o","-","1">> [] OTHER -> <<"x","uA4">>]
Ren(x) == CASE x = "op" -> "^o-1" [] x = "xu" -> "xuA4" [] OTHER -> x
RECURSIVE RenT(_)
RenT(x) == CASE IsAtom(x) -> <<x[1], Ren(x[2])>>
             [] x[1] = "s" -> Stmt(x[2], RenT(x[3]), RenT(x[4]))
             [] x[1] = "img" -> Img(RenT(x[3]), x[2], [k \in 1..Len(x[4]) |-> RenT(x[4][k])])
             [] OTHER -> <<x[1], [k \in 1..Len(x[2]) |-> RenT(x[2][k])]>>
A0 == { <<"n","a">>, <<"n","op">>, <<"n","xu">>, <<"q","a">>, <<"d","b">>, <<"i","a">> }
Cmp1(U, V) == { Stmt(c, x, y) : c \in Copulas, x \in U, y \in V }
      \cup { <<tg, <<x, y>>>> : tg \in {"seq", "prod", "conj", "ii", "ei"}, x \in U, y \in V }
      \cup { <<tg, <<x>>>> : tg \in {"si", "se", "neg"}, x \in U }
      \cup { Img(x, k, <<y>>) : x \in U, k \in {0,1}, y \in V }
Long == { <<tg, [k \in 1..n |-> IF k = n THEN <<"n","b">> ELSE IF k = 2 THEN <<"i","a">> ELSE <<"n","a">>]>> : tg \in {"seq", "prod"}, n \in 3..6 }
   \cup { <<"conj", [k \in 1..n |-> IF k = n THEN <<"n","b">> ELSE <<"n","a">>]>> : n \in 3..4 }
T1 == Cmp1(A0, A0) \cup Long
Some1 == Cmp1({<<"n","a">>, <<"d","b">>}, {<<"n","a">>}) \cup { x \in Long : Len(x[2]) = 3 }
T2 == Cmp1(Some1, {<<"n","a">>}) \cup Cmp1({<<"i","a">>}, Some1) \cup (IF Deep THEN Cmp1(Some1, Some1) ELSE {})
U == A0 \cup T1 \cup T2
Deco == { <<>>, <<" ",":","|",":">>, <<" ","{","0",".","5"," ","0",".","2","5","}">>, <<" ","{","1"," ","0","}"," ",":","|",":">>, <<"{","0"," ",".","9","9","}">> }
Text(x, q, e) == Write(x, Chars, <<>>) \o <<q>> \o e
Body(x) == Write(x, Chars, <<>>)
(* case files: every term with one decoration, near misses: one character left out or doubled *)
DecoSeq == SetToSeq(Deco)
DecoOf(x) == DecoSeq[(Len(Body(x)) % Cardinality(Deco)) + 1]
Drop(c, k) == SubSeq(c, 1, k - 1) \o SubSeq(c, k + 1, Len(c))
Dup(c, k) == SubSeq(c, 1, k) \o SubSeq(c, k, Len(c))
Near1(x) == LET c == Text(x, ".", <<>>) IN { Drop(c, k) : k \in 1..Len(c) } \cup { Dup(c, k) : k \in 1..Len(c) }
Cases == { [c |-> Text(x, q, DecoOf(x))] : x \in U, q \in {".", "!", "?"} }
   \cup { [c |-> Text(x, ".", e)] : x \in A0 \cup Long, e \in Deco }
   \cup { [c |-> c] : c \in UNION { Near1(x) : x \in A0 \cup Some1 \cup Long \cup Cmp1({<<"se", <<<<"n","a">>>>>>}, {<<"ei", <<<<"n","a">>,<<"n","b">>>>>>}) } }
ASSUME ndJsonSerialize(IOEnv.OUT, SetToSeq(Cases))
Init == t \in U /\ p \in {".", "!", "?"} /\ d \in Deco
Next == UNCHANGED <<t, p, d>>
Spec == Init /\ [][Next]_<<t, p, d>>
ParseWrite == LET s == Sentence(Text(t, p, d)) IN s.ok /\ s.t = RenT(t) /\ s.p = PunctOf(p) /\ s.ev = (Len(d) > 3 /\ SubSeq(d, Len(d) - 3, Len(d)) = EventMark)
(* the text of a term is not a proper beginning of another sentence, and its parts are not closed by accident *)
Whole == LET c == Body(t) IN \A k \in 1..(Len(c) - 1) : ~IsAtom(t) => LET r == PTerm(SubSeq(c, 1, k), 1) IN ~(r.ok /\ r.j = k + 1)
WritableU == Writable(t)
(* the printed form read with the spaces inside parentheses removed is the written form *)
=============================================================================
