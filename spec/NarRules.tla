------------------------------ MODULE NarRules ------------------------------
(* The inference rules of the declarative reasoner.                           *)
(* A conclusion is a record [t |-> term, tv |-> truth value, b |-> factor],   *)
(* b (in 1/100) being the attention factor of one-premise conclusions.        *)
EXTENDS NarTerm, NarTruth

Concl(t, tv)      == [t |-> t, tv |-> tv, b |-> 100]
ConclB(t, tv, b)  == [t |-> t, tv |-> tv, b |-> b]
MinN(a, b) == IF a <= b THEN a ELSE b

----------------------------------------------------------------------------
(* one-premise rules, applied to a judgement *)
OnePremise(a, tv) ==
  LET neg  == IF a[1] = "neg" THEN {ConclB(a[2][1], Neg(tv), 50)} ELSE {}
      inh  == IsStmtC(a, "inh")
      subj == IF inh /\ IsC(a[3], "ii")
              THEN { ConclB(Inh(a[3][2][k], a[4]), tv, 90) : k \in 1..MinN(3, Len(a[3][2])) } ELSE {}
      pred == IF inh /\ IsC(a[4], "ii")
              THEN { ConclB(Inh(a[3], a[4][2][k]), tv, 100) : k \in 1..MinN(3, Len(a[4][2])) } ELSE {}
      prod == IF inh /\ IsC(a[3], "prod") /\ Len(a[3][2]) = 2
              THEN { ConclB(Inh(a[3][2][1], Img(a[4], 0, <<a[3][2][2]>>)), tv, 80),
                     ConclB(Inh(a[3][2][2], Img(a[4], 1, <<a[3][2][1]>>)), tv, 80) } ELSE {}
      img0 == IF inh /\ a[4][1] = "img" /\ a[4][2] = 0 /\ Len(a[4][4]) = 1
              THEN { ConclB(Inh(Cmp("prod", <<a[3], a[4][4][1]>>), a[4][3]), tv, 90) } ELSE {}
      img1 == IF inh /\ a[4][1] = "img" /\ a[4][2] = 1 /\ Len(a[4][4]) = 1
              THEN { ConclB(Inh(Cmp("prod", <<a[4][4][1], a[3]>>), a[4][3]), tv, 90) } ELSE {}
      sets == IF IsStmtC(a, "sim") /\ a[3][1] \in {"si","se"} /\ a[3][1] = a[4][1]
                 /\ Len(a[3][2]) = 1 /\ Len(a[4][2]) = 1
              THEN { ConclB(Stmt("sim", a[3][2][1], a[4][2][1]), tv, 100) } ELSE {}
      par  == IF IsStmtC(a, "pimp") /\ IsC(a[4], "par")
              THEN { ConclB(Stmt("pimp", a[3], a[4][2][k]), tv, 90) : k \in 1..Len(a[4][2]) } ELSE {}
  IN neg \cup subj \cup pred \cup prod \cup img0 \cup img1 \cup sets \cup par

----------------------------------------------------------------------------
(* two-premise rules.  TwoJ: both premises are judgements, in this order.     *)
DropAt(s, k) == SubSeq(s, 1, k - 1) \o SubSeq(s, k + 1, Len(s))

R3(a, tva, b, tvb) ==    \* s-->[x..]  s-->[y..]  |-  s-->[x.. y..]
  IF IsStmtC(a,"inh") /\ IsStmtC(b,"inh") /\ IsC(a[4],"si") /\ IsC(b[4],"si") /\ a[3] = b[3]
  THEN { Concl(Inh(a[3], Cmp("si", a[4][2] \o b[4][2])), Inter(tva, tvb)) } ELSE {}

R5(a, tva, b, tvb) ==    \* (x && y ...) ==> p   x  |-  (y ...) ==> p
  IF IsStmtC(a,"impl") /\ IsC(a[3],"conj")
  THEN UNION { LET u == Unify(a[3][2][k], b)
                   rest == DropAt(a[3][2], k)
                   s == [j \in 1..Len(rest) |-> Subst(rest[j], u.env)]
               IN IF u.ok
                  THEN { Concl(Stmt("impl", IF Len(s) = 1 THEN s[1] ELSE Cmp("conj", s),
                                    Subst(a[4], u.env)), Ded(tva, tvb)) }
                  ELSE {}
             : k \in 1..MinN(4, Len(a[3][2])) }
  ELSE {}

RImplDed(a, tva, b, tvb) ==   \* x ==> p   x  |-  p
  IF IsStmtC(a,"impl")
  THEN LET u == Unify(a[3], b)
       IN IF u.ok THEN { Concl(Subst(a[4], u.env), Ded(tva, tvb)) } ELSE {}
  ELSE {}

R10(a, tva, b, tvb) ==   \* s-->x  s-->y  |-  s-->(x & y)
  IF IsStmtC(a,"inh") /\ IsStmtC(b,"inh") /\ a[3] = b[3] /\ a[4] # b[4]
  THEN { Concl(Inh(a[3], Cmp("ei", <<a[4], b[4]>>)), Inter(tva, tvb)) } ELSE {}

InhSim(t) == IsStmtC(t,"inh") \/ IsStmtC(t,"sim")
RCompPred(a, tva, b, tvb) ==
  IF InhSim(a) /\ InhSim(b) /\ a[3] = b[3] /\ a[4] # b[4]
  THEN { Concl(Stmt("sim", a[4], b[4]), Comp(tva, tvb)) } ELSE {}
RCompSubj(a, tva, b, tvb) ==
  IF InhSim(a) /\ InhSim(b) /\ a[4] = b[4] /\ a[3] # b[3]
  THEN { Concl(Stmt("sim", a[3], b[3]), Comp(tva, tvb)) } ELSE {}

RDed(a, tva, b, tvb) ==
  IF IsStmt(a) /\ IsStmt(b) /\ a[2] = b[2] /\ a[2] \in {"pimp","impl","inh"}
     /\ a[4] = b[3] /\ a[3] # b[4]
  THEN { Concl(Stmt(a[2], a[3], b[4]), Ded(tva, tvb)) } ELSE {}
RAbd(a, tva, b, tvb) ==
  IF IsStmtC(a,"inh") /\ IsStmtC(b,"inh") /\ a[4] = b[4] /\ a[3] # b[3]
  THEN { Concl(Inh(a[3], b[3]), Abd(tva, tvb)) } ELSE {}
RInd(a, tva, b, tvb) ==
  IF IsStmtC(a,"inh") /\ IsStmtC(b,"inh") /\ a[3] = b[3] /\ a[4] # b[4]
  THEN { Concl(Inh(a[4], b[4]), Ind(tva, tvb)) } ELSE {}

TwoJ(a, tva, b, tvb) ==
  R3(a,tva,b,tvb) \cup R5(a,tva,b,tvb) \cup RImplDed(a,tva,b,tvb) \cup R10(a,tva,b,tvb)
  \cup RCompPred(a,tva,b,tvb) \cup RCompSubj(a,tva,b,tvb)
  \cup RDed(a,tva,b,tvb) \cup RAbd(a,tva,b,tvb) \cup RInd(a,tva,b,tvb)

(* question x ==> p?  judgement p  |-  the instantiated implication *)
R7(q, b, tvb) ==
  IF IsStmtC(q,"impl")
  THEN LET u == Unify(q[4], b) IN IF u.ok THEN { Concl(Subst(q, u.env), tvb) } ELSE {}
  ELSE {}

(* all conclusions of the unordered pair of premises *)
TwoPremise(a, pa, tva, b, pb, tvb) ==
  CASE pa = "J" /\ pb = "J" -> TwoJ(a,tva,b,tvb) \cup TwoJ(b,tvb,a,tva)
    [] pa = "Q" /\ pb = "J" -> R7(a, b, tvb)
    [] pa = "J" /\ pb = "Q" -> R7(b, a, tva)
    [] OTHER                -> {}

(* comparison with reported conclusions: same set, up to rounding of numbers  *)
SameConcl(x, y, tol) == x.t = y.t /\ NearTv(x.tv, y.tv, tol) /\ x.b = y.b
SameConcls(xs, ys, tol) ==
  /\ \A x \in xs : \E y \in ys : SameConcl(x, y, tol)
  /\ \A y \in ys : \E x \in xs : SameConcl(x, y, tol)
=============================================================================
