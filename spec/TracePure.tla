----------------------------- MODULE TracePure -----------------------------
(* Validation of recorded calls of the pure parts of the implementation      *)
(* (truth functions, stamps, terms, unification, inference rules) against    *)
(* the specification.  Every event is one call with arguments and result;    *)
(* the trace is accepted iff every event is the step the spec allows.        *)
EXTENDS NarRules, NarStamp, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l

Has(e, f) == f \in DOMAIN e
Tol == 4

TvFn(name, a, b) ==
  CASE name = "ded"  -> Ded(a, b)
    [] name = "abd"  -> Abd(a, b)
    [] name = "ind"  -> Ind(a, b)
    [] name = "rev"  -> Rev(a, b)
    [] name = "comp" -> Comp(a, b)
    [] name = "int"  -> Inter(a, b)
    [] name = "neg"  -> Neg(a)

(* goal deduction: the more confident one of the two readings; when both are  *)
(* equally confident (up to rounding) either is the most confident one        *)
OkDedGoal(a, b, r) ==
  LET x == DedGoalA(a, b)  y == DedGoalB(a, b)
  IN CASE x.c > y.c + Tol -> NearTv(r, x, Tol)
       [] y.c > x.c + Tol -> NearTv(r, y, Tol)
       [] OTHER -> NearTv(r, x, Tol) \/ NearTv(r, y, Tol)

SameBag(p, q) == /\ Len(p) = Len(q)
                 /\ \A k \in 1..Len(p) : Cardinality({ i \in 1..Len(p) : p[i] = p[k] }) = Cardinality({ i \in 1..Len(q) : q[i] = p[k] })
RSet(rs) == { [t |-> rs[k].t, tv |-> [f |-> rs[k].f, c |-> rs[k].c], b |-> rs[k].b] : k \in 1..Len(rs) }
AllJ(rs) == \A k \in 1..Len(rs) : rs[k].p = "J"
TvOf(x) == [f |-> x.f, c |-> x.c]

Ok(e) ==
  CASE e.op = "tv"      -> /\ ValidTv(e.r)
                           /\ NearTv(e.r, TvFn(e.fn, e.a, e.b), Tol)
    [] e.op = "dedGoal" -> ValidTv(e.r) /\ OkDedGoal(e.a, e.b, e.r)
    [] e.op = "exp"     -> Near(e.r, Exp(e.a), Tol)
    (* extreme confidences: the result is a valid truth value, revision never loses evidence *)
    [] e.op = "tvx"     -> /\ ValidTv(e.r) /\ e.clt1
                           /\ e.fn = "rev" => /\ e.r.c >= Max2(e.a.c, e.b.c) - 1
                                              /\ e.a.c + e.b.c > 0 => e.r.f >= Min2(e.a.f, e.b.f) - 1
                                              /\ e.r.f <= Max2(e.a.f, e.b.f) + 1
    [] e.op = "cnt"     -> Near(e.f, CntF(e), 2) /\ Near(e.c, CntC(e), 2)
    [] e.op = "overlap" -> e.r = Overlap(e.a, e.b)
    [] e.op = "merge"   -> e.r = Merge(e.a, e.b)
    [] e.op = "same"    -> e.r = (e.a = e.b)
    (* usefulness of a belief: often and recently used ones are worth more *)
    [] e.op = "usage"   -> /\ Near(e.r, (S * e.uc) \div (e.uc + Max2(e.now - e.lu, 0) + 1), 2)
                           /\ e.uc2 = e.uc + 1 /\ e.lu2 = e.now
    [] e.op = "subterms" -> SameBag(e.r, SubtermSeq(e.a))
    [] e.op = "unique"  -> { e.r[k] : k \in 1..Len(e.r) } = Subterms(e.a) /\ NoDup(e.r)
    [] e.op = "complexity" -> e.r = Complexity(e.a)
    [] e.op = "eq"      -> e.r = (e.a = e.b)
    [] e.op = "count"   -> e.r = CountOcc(e.a, e.b)
    [] e.op = "decodeop" -> /\ e.some = IsOpTerm(e.a)
                            /\ e.some => e.args = OpArgs(e.a) /\ e.name = OpName(e.a)
    [] e.op = "encodeop" -> e.r = MkOp(e.args, e.name)
    [] e.op = "clone"   -> e.r = e.a
    [] e.op = "unify"   -> LET u == Unify(e.a, e.b)
                           IN /\ e.some = u.ok
                              /\ u.ok => /\ { e.env[k] : k \in 1..Len(e.env) } = { u.env[k] : k \in 1..Len(u.env) }
                                         /\ e.sub = Subst(e.a, u.env)
                                         /\ e.osub = Subst(e.o, u.env)
    [] e.op = "rules1"  -> /\ AllJ(e.r)
                           /\ SameConcls(RSet(e.r), IF e.p = "J" THEN OnePremise(e.a, TvOf(e.tv)) ELSE {}, Tol)
    [] e.op = "rules2"  -> LET exp == TwoPremise(e.a, e.pa, TvOf(e.tva), e.b, e.pb, TvOf(e.tvb))
                           IN AllJ(e.r) /\ SameConcls(RSet(e.r), exp, Tol) /\ e.applied = (exp # {})
    (* sentence level: evidence of the premises is checked and merged *)
    [] e.op = "inf1"    -> /\ SameConcls(RSet(e.r), OnePremise(e.a, TvOf(e.tv)), Tol)
                           /\ \A k \in 1..Len(e.r) : e.r[k].stamp = e.sa
    [] e.op = "inf2"    -> LET exp == TwoPremise(e.a, e.pa, TvOf(e.tva), e.b, e.pb, TvOf(e.tvb))
                           IN /\ SameConcls(RSet(e.r), IF Overlap(e.sa, e.sb) THEN {} ELSE exp, Tol)
                              /\ \A k \in 1..Len(e.r) : e.r[k].stamp = Merge(e.sa, e.sb)
    [] OTHER            -> FALSE        \* panic, hang or unknown event

Init == l = 0
Next == /\ l < Len(Trace)
        /\ IF Ok(Trace[l + 1]) THEN TRUE ELSE PrintT(<<"REJECTED", l + 1>>) /\ FALSE
        /\ l' = l + 1
Spec == Init /\ [][Next]_l
Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
