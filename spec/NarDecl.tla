------------------------------ MODULE NarDecl ------------------------------
(* The declarative reasoner: belief memory (concepts with two belief tables), *)
(* revision, judgement tasks with credits, attention, question answering.     *)
(* The operators are relations/predicates on explicit state components, used  *)
(* by the design model (MCDecl) and by trace validation (TraceDecl).          *)
(*                                                                            *)
(* belief  [t, s, f, c, lu, uc]     term, stamp, truth, usage (last, count)   *)
(* concept [exp, use]               belief tables ranked by expectation/usage *)
(* task    [id, t, s, f, c, cr, qa, mul, dt, ...]                             *)
EXTENDS NarRules, NarStamp

TvB(b) == [f |-> b.f, c |-> b.c]
ExpB(b) == Exp(TvB(b))
ETol == 3                        \* rounding of logged numbers

SameBelief(x, y) == x.t = y.t /\ x.s = y.s /\ NearTv(TvB(x), TvB(y), ETol)
InSeq(x, q) == \E k \in 1..Len(q) : SameBelief(x, q[k])
DropK(q, k) == SubSeq(q, 1, k - 1) \o SubSeq(q, k + 1, Len(q))

----------------------------------------------------------------------------
(* revision: a belief with the same term and disjoint evidence is replaced by *)
(* the revised belief, which rests on the evidence of both                    *)
Revisable(b, s) == b.t = s.t /\ ~Overlap(b.s, s.s)
Revised(b, s) == LET tv == Rev(TvB(b), TvB(s))
                 IN [t |-> b.t, s |-> Merge(b.s, s.s), f |-> tv.f, c |-> tv.c, lu |-> 0, uc |-> 0]
(* possible tables after a revision attempt *)
ReviseTable(tbl, s) ==
  LET ks == { k \in 1..Len(tbl) : Revisable(tbl[k], s) }
  IN IF ks = {} THEN {tbl} ELSE { Append(DropK(tbl, k), Revised(tbl[k], s)) : k \in ks }
RECURSIVE ReviseN(_, _, _)
ReviseN(tbls, s, n) == IF n = 0 THEN tbls ELSE ReviseN(UNION { ReviseTable(t, s) : t \in tbls }, s, n - 1)
TableRevises(tbl, s) == \E k \in 1..Len(tbl) : Revisable(tbl[k], s)

(* storage: ranked, bounded, nothing stored twice on overlapping evidence     *)
Known(tbl, s) == \E k \in 1..Len(tbl) : tbl[k].t = s.t /\ Overlap(tbl[k].s, s.s)
(* usefulness u = count/(recency+1) compared without division *)
Recency(b, now) == Max2(now - b.lu, 0)
UseGeq(x, y, now) == x.uc * (Recency(y, now) + 1) >= y.uc * (Recency(x, now) + 1)
ExpGeq(x, y) == ExpB(x) + ETol >= ExpB(y)

SameTable(x, y) == /\ Len(x) = Len(y)
                   /\ \A k \in 1..Len(x) : InSeq(x[k], y)
                   /\ \A k \in 1..Len(y) : InSeq(y[k], x)

(* new is an allowed table after storing s in tbl with capacity cap *)
OkStore(tbl, s, cap, new, Geq(_, _)) ==
  IF Known(tbl, s) THEN SameTable(tbl, new)
  ELSE LET cand == Append(tbl, s)
       IN /\ Len(new) = Min2(Len(cand), cap)
          /\ \A k \in 1..Len(new) : InSeq(new[k], cand)
          /\ \A j, k \in 1..Len(new) : j < k => Geq(new[j], new[k])
          /\ \A k \in 1..Len(cand) : InSeq(cand[k], new)
                 \/ (Len(new) = cap /\ \A j \in 1..Len(new) : Geq(new[j], cand[k]))

OccCount(t, x) == Cardinality({ k \in 1..Len(SubtermSeq(t)) : SubtermSeq(t)[k] = x })

(* con/con2: concept memory before/after adding judgement s *)
AnyRevises(con, s) == \E t \in Subterms(s.t) \cap DOMAIN con :
                          TableRevises(con[t].exp, s) \/ TableRevises(con[t].use, s)
OkRevise(con, s, con2) ==
  /\ DOMAIN con2 = DOMAIN con
  /\ \A t \in Subterms(s.t) \cap DOMAIN con :
        /\ \E x \in ReviseN({con[t].exp}, s, OccCount(s.t, t)) : SameTable(x, con2[t].exp)
        /\ \E x \in ReviseN({con[t].use}, s, OccCount(s.t, t)) : SameTable(x, con2[t].use)
OkStoreAll(con, s, cap, now, con2) ==
  /\ DOMAIN con2 = DOMAIN con \cup Subterms(s.t)
  /\ \A t \in Subterms(s.t) :
        IF t \in DOMAIN con
        THEN /\ OkStore(con[t].exp, s, cap, con2[t].exp, ExpGeq)
             /\ OkStore(con[t].use, s, cap, con2[t].use, LAMBDA x, y : UseGeq(x, y, now))
        ELSE SameTable(con2[t].exp, <<s>>) /\ SameTable(con2[t].use, <<s>>)
OthersUnchanged(con, s, con2) == \A t \in DOMAIN con \ Subterms(s.t) : con2[t] = con[t]

OkMemAdd(con, s, cap, maxcx, now, con2) ==
  IF Complexity(s.t) > maxcx THEN con2 = con
  ELSE /\ OthersUnchanged(con, s, con2)
       /\ IF AnyRevises(con, s) THEN OkRevise(con, s, con2) ELSE OkStoreAll(con, s, cap, now, con2)

(* all revision results possible for s *)
RevisionsOf(con, s) == UNION { { Revised(con[t].exp[k], s) : k \in { k \in 1..Len(con[t].exp) : Revisable(con[t].exp[k], s) } }
                               \cup { Revised(con[t].use[k], s) : k \in { k \in 1..Len(con[t].use) : Revisable(con[t].use[k], s) } }
                             : t \in Subterms(s.t) \cap DOMAIN con }

----------------------------------------------------------------------------
(* tasks *)
TaskIds(tasks) == { tasks[k].id : k \in 1..Len(tasks) }
TaskById(tasks, id) == tasks[CHOOSE k \in 1..Len(tasks) : tasks[k].id = id]
HasTask(tasks, t, s) == \E k \in 1..Len(tasks) : tasks[k].t = t /\ tasks[k].s = s
NewTasks(tasks, tasks2) == SelectSeq(tasks2, LAMBDA x : x.id \notin TaskIds(tasks))
SameTaskSentence(x, y) == x.t = y.t /\ x.s = y.s /\ NearTv(TvB(x), TvB(y), ETol)
TasksUnique(tasks) == \A i, j \in 1..Len(tasks) : (tasks[i].t = tasks[j].t /\ tasks[i].s = tasks[j].s) => i = j

(* effective credit (scale 10^6): (credit + 0.2 qa) * exp(-0.001 age) * mul   *)
DecayTab == <<9990, 9980, 9960, 9920, 9841, 9685, 9380, 8799, 7742, 5993, 3592, 1290>> \* exp(-0.001*2^k), k=0..11
RECURSIVE DecayR(_, _, _)
DecayR(age, k, acc) == IF age = 0 \/ k > 12 THEN acc
                       ELSE DecayR(age \div 2, k + 1, IF age % 2 = 1 THEN Mul(acc, DecayTab[k]) ELSE acc)
Decay(age) == DecayR(age, 1, S)
MulHi(a, b) == (((a \div 100) * b) \div 100) + (((a % 100) * b) \div 10000)     \* a scaled 10^6, b scaled 10^4
EffCredit(x, cc) == MulHi(MulHi(x.cr + x.qa \div 5, Decay(cc - x.dt)), x.mul)
NearRel(a, b) == Abs(a - b) <= 20 + Max2(a, b) \div 100

CreditAfter(cr, cx) == (cr + 500000) \div cx
(* relevance credit of a task from all questions (prio 1 each) *)
QGain(x, qs) == SumSeq([k \in 1..Len(qs) |-> SumSeq([j \in 1..Len(SubtermSeq(qs[k].t)) |-> OccCount(x.t, SubtermSeq(qs[k].t)[j])])])

----------------------------------------------------------------------------
(* index of tasks by subterm *)
IdxOf(idx) == [t \in { idx[k][1] : k \in 1..Len(idx) } |-> idx[CHOOSE k \in 1..Len(idx) : idx[k][1] = t][2]]
SeqIds(q) == { q[k] : k \in 1..Len(q) }
=============================================================================
