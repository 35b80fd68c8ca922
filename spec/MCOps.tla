------------------------------- MODULE MCOps -------------------------------
(* The operations of the library on an enumerated set of registrations and    *)
(* arguments, nested up to two levels.                                         *)
EXTENDS NarShell, Json, IOUtils, SequencesExt
VARIABLES o, k, a, m
Sf == <<"se", <<Nm("SELF")>>>>
Rel(n) == MkOp(<<Sf, n>>, "^nlpRel0")
RelArgs == { Inh(<<"prod", <<Nm("x"), r>>>>, Nm("p")) : r \in { Nm("y"), <<"seq", <<Nm("y"), Nm("and"), Nm("z")>>>>, <<"seq", <<Nm("y"), Nm("or"), Nm("z")>>>>, <<"seq", <<Nm("y"), Nm("and")>>>> } }
           \cup { Inh(<<"prod", <<Nm("x"), <<"seq", <<Nm("y"), Nm("and"), Nm("z")>>>>, Nm("w")>>>>, Nm("p")), Inh(<<"prod", <<<<"seq", <<Nm("y"), Nm("and"), Nm("z")>>>>>>>>, Nm("p")), Stmt("sim", <<"prod", <<Nm("x"), <<"seq", <<Nm("y"), Nm("and"), Nm("z")>>>>>>>>, Nm("p")), Nm("p") }
Call1 == { MkOp(<<Sf>>, "^l"), MkOp(<<Sf, Nm("x")>>, "^r"), MkOp(<<Sf>>, "^none"), Nm("x"), Inh(Sf, Nm("^l")), Rel(Inh(Nm("x"), Nm("p"))) }
Seq2(U) == { <<"seq", <<x, y>>>> : x \in U, y \in U }
Exe(q, e) == MkOp(<<Sf, q, e>>, "^nal9_exeAndInject")
Nested == { Exe(<<"seq", <<x, MkOp(<<Sf>>, "^l")>>>>, Nm("e1")) : x \in Call1 }
Call2 == Call1 \cup Nested
ArgsExe == { <<Sf, q, Nm("e")>> : q \in Seq2(Call2) \cup Call1 \cup { <<"seq", <<x>>>> : x \in Call2 } }
           \cup { <<Sf, q>> : q \in Seq2(Call1) } \cup { <<Sf, q, Nm("e"), Nm("f")>> : q \in Seq2(Call1) } \cup {<<>>}
ArgsRel == { <<Sf, r>> : r \in RelArgs } \cup { <<Sf, r, Nm("z")>> : r \in RelArgs } \cup { <<r>> : r \in RelArgs }
Op(n, ty) == [n |-> n, ty |-> ty]
Tables == { <<Op("^l", "rec"), Op("^r", "rec"), Op("^nal9_exeAndInject", "exe"), Op("^nlpRel0", "rel")>>,
            <<Op("^r", "nop"), Op("^l", "rec"), Op("^l", "nop"), Op("^nal9_exeAndInject", "exe")>>,
            <<Op("^nal9_exeAndInject", "exe"), Op("^l", "nop"), Op("^l", "rec"), Op("^nlpRel0", "rel"), Op("^r", "rec")>> }
ArgsOf(ty) == CASE ty = "exe" -> ArgsExe [] ty = "rel" -> ArgsRel [] OTHER -> { <<Sf>>, <<>>, <<Sf, Nm("x")>> }
Init == /\ o \in Tables /\ k \in 1..Len(o) /\ a \in ArgsOf(o[k].ty) /\ m \in BOOLEAN
Next == UNCHANGED <<o, k, a, m>>
Spec == Init /\ [][Next]_<<o, k, a, m>>
Cases == UNION { UNION { { [ops |-> t, k |-> j, args |-> x, mem |-> b] : x \in ArgsOf(t[j].ty), b \in BOOLEAN } : j \in 1..Len(t) } : t \in Tables }
ASSUME ndJsonSerialize(IOEnv.OUT, SetToSeq(Cases))
E == CallOp(o, k, a, m)
OnlyRegistered == o[k].ty = "exe" => \A j \in 1..Len(E.calls) : OpOf(o, E.calls[j].n) # 0 /\ o[OpOf(o, E.calls[j].n)].ty = "rec"
InjectLast == E.evs # <<>> => E.evs[Len(E.evs)] = a[3]
NothingElse == (o[k].ty = "nop" => E = NoEff) /\ (o[k].ty = "rec" => Len(E.calls) = 1 /\ E.evs = <<>> /\ E.told = <<>>)
              /\ (~m => E.told = <<>>) /\ (o[k].ty = "rel" => E.calls = <<>> /\ E.evs = <<>> /\ Len(E.told) <= 1)
Wrong == (o[k].ty = "exe" /\ (Len(a) # 3 \/ a[2][1] # "seq")) => E = NoEff
(* a relation without "and" is told as it is; the rewriting is idempotent *)
ASSUME \A r \in RelArgs : RelTerm(RelTerm(r)) = RelTerm(r)
=============================================================================
