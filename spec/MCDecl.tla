------------------------------- MODULE MCDecl -------------------------------
(* Design model of the belief memory: arbitrary sequences of judgements with  *)
(* arbitrary (also overlapping) evidence are added; every constructive step   *)
(* satisfies the relation OkMemAdd against which the implementation's traces  *)
(* are checked, and the global guarantees hold in every reachable state.      *)
(* Every judgement told carries one unit of evidence per id, so that the      *)
(* truth value a belief ought to have is known: the pooled evidence.          *)
EXTENDS NarDecl, Json, SequencesExt
CONSTANTS Depth, Cap, Emit
VARIABLES con, hist

A0 == Nm("a")   B0 == Nm("b")
T1 == Inh(A0, B0)
T2 == Inh(B0, A0)
(* evidence id -> what it says: odd ids are positive, even ids negative *)
Pos(id) == IF id % 2 = 1 THEN 1 ELSE 0
RECURSIVE PosOf(_)
PosOf(s) == IF s = <<>> THEN 0 ELSE Pos(Head(s)) + PosOf(Tail(s))
PoolTv(s) == [f |-> (PosOf(s) * S) \div Len(s), c |-> (Len(s) * S) \div (Len(s) + 1)]
Told(t, s) == [t |-> t, s |-> s, f |-> PoolTv(s).f, c |-> PoolTv(s).c, lu |-> 0, uc |-> 0]
Inputs == { Told(t, s) : t \in {T1, T2}, s \in { <<1>>, <<2>>, <<3>>, <<1, 2>>, <<3, 4>> } }

SortExp(q) == SortSeq(q, LAMBDA x, y : ExpB(x) > ExpB(y))
StoreT(tbl, s, sortIt) ==
  IF Known(tbl, s) THEN tbl
  ELSE LET c == Append(tbl, s)
           q == IF sortIt THEN SortExp(c) ELSE c
       IN SubSeq(q, 1, Min2(Len(q), Cap))
AddTo(s) ==
  IF AnyRevises(con, s)
  THEN [ t \in DOMAIN con |->
           IF t \in Subterms(s.t)
           THEN [exp |-> CHOOSE x \in ReviseTable(con[t].exp, s) : TRUE,
                 use |-> CHOOSE x \in ReviseTable(con[t].use, s) : TRUE]
           ELSE con[t] ]
  ELSE [ t \in DOMAIN con \cup Subterms(s.t) |->
           IF t \in Subterms(s.t)
           THEN IF t \in DOMAIN con
                THEN [exp |-> StoreT(con[t].exp, s, TRUE), use |-> StoreT(con[t].use, s, FALSE)]
                ELSE [exp |-> <<s>>, use |-> <<s>>]
           ELSE con[t] ]

Init == con = [t \in {} |-> 0] /\ hist = <<>>
Next == /\ Len(hist) < Depth
        /\ \E s \in Inputs :
             /\ con' = AddTo(s)
             /\ hist' = Append(hist, s)
             /\ Assert(OkMemAdd(con, s, Cap, 64, 0, con'), "constructive step violates OkMemAdd")
        /\ (Emit /\ Len(hist') = Depth) => PrintT("BEHAVIOUR " \o ToJson(hist'))
Spec == Init /\ [][Next]_<<con, hist>>
NoHist == con

All == UNION { { con[t].exp[k] : k \in 1..Len(con[t].exp) } \cup { con[t].use[k] : k \in 1..Len(con[t].use) } : t \in DOMAIN con }
InvStamps == \A b \in All : NoDup(b.s)
InvPooled == \A b \in All : NearTv(TvB(b), PoolTv(b.s), 4)
InvBound  == \A t \in DOMAIN con : Len(con[t].exp) <= Cap /\ Len(con[t].use) <= Cap
InvFiled  == \A t \in DOMAIN con : \A b \in { con[t].exp[k] : k \in 1..Len(con[t].exp) } : t \in Subterms(b.t)
(* one belief per statement and table: what can be pooled is pooled *)
OneEach(q) == \A i, j \in 1..Len(q) : q[i].t = q[j].t => i = j
InvOne == \A t \in DOMAIN con : OneEach(con[t].exp) /\ OneEach(con[t].use)
(* told knowledge is never silently lost while there is room *)
InvKept == \A k \in 1..Len(hist) :
             LET s == hist[k] IN \A t \in Subterms(s.t) :
               t \in DOMAIN con /\ (Len(con[t].exp) < Cap => Known(con[t].exp, s))
=============================================================================
