------------------------------ MODULE NarTerm ------------------------------
(* The term language of the reasoner (Narsese terms) and the purely           *)
(* structural operations on it: subterms, complexity, unification,            *)
(* substitution, operator encoding.                                           *)
(*                                                                            *)
(* A term is a tagged tuple; the same encoding is used in the JSON traces:    *)
(*   <<"n", name>>                         atom                               *)
(*   <<"q"|"d"|"i", name>>                 query / dependent / independent var *)
(*   <<"s", copula, subject, predicate>>   statement                          *)
(*   <<"img", idx, relation, elements>>    image (idx = 0-based place)        *)
(*   <<tag, elements>>                     tag in CompoundTags                *)
EXTENDS Naturals, Sequences, FiniteSets, TLC

CompoundTags == {"seq","si","se","conj","prod","ii","ei","par","neg"}
VarTags      == {"q","d","i"}
Copulas      == {"sim","inh","pimp","impl","equiv"}

Tag(t)    == t[1]
IsVar(t)  == t[1] \in VarTags
IsAtom(t) == t[1] \in (VarTags \cup {"n"})
IsStmt(t) == t[1] = "s"
IsStmtC(t, c) == t[1] = "s" /\ t[2] = c
Subj(t)   == t[3]
Pred(t)   == t[4]
Elems(t)  == IF t[1] = "img" THEN t[4] ELSE t[2]     \* of compounds and images
IsC(t, tag) == t[1] = tag                            \* compound with given tag

Nm(x)         == <<"n", x>>
Stmt(c, s, p) == <<"s", c, s, p>>
Inh(s, p)     == Stmt("inh", s, p)
Cmp(tag, es)  == <<tag, es>>
Img(r, i, es) == <<"img", i, r, es>>

(* children in the order in which the implementation enumerates them *)
Children(t) ==
  CASE IsAtom(t)      -> <<>>
    [] t[1] = "s"     -> <<t[3], t[4]>>
    [] t[1] = "img"   -> Append(t[4], t[3])
    [] OTHER          -> t[2]

RECURSIVE FlatMap(_, _)
FlatMap(F(_), s) == IF s = <<>> THEN <<>> ELSE F(Head(s)) \o FlatMap(F, Tail(s))

(* pre-order enumeration of all subterm occurrences *)
RECURSIVE SubtermSeq(_)
SubtermSeq(t) == <<t>> \o FlatMap(SubtermSeq, Children(t))

RECURSIVE Subterms(_)
Subterms(t) == {t} \cup UNION { Subterms(Children(t)[k]) : k \in 1..Len(Children(t)) }

RECURSIVE SumSeq(_)
SumSeq(s) == IF s = <<>> THEN 0 ELSE Head(s) + SumSeq(Tail(s))

RECURSIVE Complexity(_)
Complexity(t) ==
  CASE IsAtom(t)     -> 1
    [] t[1] = "s"    -> 1 + Complexity(t[3]) + Complexity(t[4])
    [] t[1] = "neg"  -> 1 + Complexity(t[2][1])
    [] OTHER         -> SumSeq([k \in 1..Len(Children(t)) |-> Complexity(Children(t)[k])])

(* number of outermost occurrences of x in t; the relation of an image is not
   looked into by the implementation *)
RECURSIVE CountOcc(_, _)
CountOcc(t, x) ==
  IF t = x THEN 1
  ELSE IF IsAtom(t) THEN 0
  ELSE LET cs == IF t[1] = "img" THEN t[4] ELSE Children(t)
       IN SumSeq([k \in 1..Len(cs) |-> CountOcc(cs[k], x)])

(* replacement of every outermost occurrence of x (image relations excluded)  *)
RECURSIVE Replace(_, _, _)
Replace(t, x, w) ==
  IF t = x THEN w
  ELSE CASE IsAtom(t)    -> t
         [] t[1] = "s"   -> <<"s", t[2], Replace(t[3],x,w), Replace(t[4],x,w)>>
         [] t[1] = "img" -> <<"img", t[2], t[3], [k \in 1..Len(t[4]) |-> Replace(t[4][k],x,w)]>>
         [] OTHER        -> <<t[1], [k \in 1..Len(t[2]) |-> Replace(t[2][k],x,w)]>>

----------------------------------------------------------------------------
(* One-sided unification: variables of the pattern a are bound to subterms of *)
(* b; a variable never matches a variable, variables of b match nothing.      *)
(* An environment is a sequence of <<var, val>> pairs in binding order;       *)
(* Fail stands for "no unifier".                                              *)
Fail == <<"fail">>
NotFail(e) == Len(e) = 0 \/ e # Fail
EnvHas(env, v)  == \E k \in 1..Len(env) : env[k][1] = v
EnvGet(env, v)  == LET k == CHOOSE k \in 1..Len(env) : env[k][1] = v IN env[k][2]

RECURSIVE UnifyE(_, _, _), UnifySeqE(_, _, _)
UnifyE(a, b, r) ==
  IF ~r.ok THEN r
  ELSE IF IsVar(a) THEN
       IF IsVar(b) THEN [ok |-> FALSE, env |-> <<>>]
       ELSE IF EnvHas(r.env, a)
            THEN [ok |-> EnvGet(r.env, a) = b, env |-> r.env]
            ELSE [ok |-> TRUE, env |-> Append(r.env, <<a, b>>)]
  ELSE IF a[1] # b[1] THEN [ok |-> FALSE, env |-> <<>>]
  ELSE CASE a[1] = "n"   -> [ok |-> a = b, env |-> r.env]
         [] a[1] = "s"   -> IF a[2] # b[2] THEN [ok |-> FALSE, env |-> <<>>]
                            ELSE UnifyE(a[4], b[4], UnifyE(a[3], b[3], r))
         [] a[1] = "img" -> IF a[2] # b[2] \/ Len(a[4]) # Len(b[4]) THEN [ok |-> FALSE, env |-> <<>>]
                            ELSE UnifySeqE(a[4], b[4], UnifyE(a[3], b[3], r))
         [] OTHER        -> IF Len(a[2]) # Len(b[2]) THEN [ok |-> FALSE, env |-> <<>>]
                            ELSE UnifySeqE(a[2], b[2], r)
UnifySeqE(as, bs, r) ==
  IF as = <<>> \/ ~r.ok THEN r
  ELSE UnifySeqE(Tail(as), Tail(bs), UnifyE(Head(as), Head(bs), r))

Unify(a, b) == UnifyE(a, b, [ok |-> TRUE, env |-> <<>>])
Unifies(a, b) == Unify(a, b).ok

RECURSIVE Subst(_, _)
Subst(t, env) ==
  CASE IsVar(t)     -> IF EnvHas(env, t) THEN EnvGet(env, t) ELSE t
    [] t[1] = "n"   -> t
    [] t[1] = "s"   -> <<"s", t[2], Subst(t[3],env), Subst(t[4],env)>>
    [] t[1] = "img" -> <<"img", t[2], Subst(t[3],env), [k \in 1..Len(t[4]) |-> Subst(t[4][k],env)]>>
    [] OTHER        -> <<t[1], [k \in 1..Len(t[2]) |-> Subst(t[2][k],env)]>>

Vars(t) == { x \in Subterms(t) : IsVar(x) }

----------------------------------------------------------------------------
(* operators: <{(arg * arg ...)} --> opname> *)
IsOpTerm(t) == /\ IsStmtC(t, "inh")
               /\ t[4][1] = "n"
               /\ t[3][1] = "se" /\ Len(t[3][2]) = 1
               /\ t[3][2][1][1] = "prod" /\ Len(t[3][2][1][2]) >= 1
OpName(t)   == t[4][2]
OpArgs(t)   == t[3][2][1][2]
MkOp(args, name) == Inh(Cmp("se", <<Cmp("prod", args)>>), Nm(name))
Self == Cmp("se", <<Nm("SELF")>>)

(* a predictive implication (c, op, ...) =/> p *)
IsSeqImpl(t) == IsStmtC(t, "pimp") /\ t[3][1] = "seq"
SeqCond(t)   == IF t[3][1] = "seq" THEN t[3][2][1] ELSE t[3]
SeqLast(t)   == t[2][Len(t[2])]
=============================================================================
