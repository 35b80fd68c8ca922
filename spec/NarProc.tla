------------------------------ MODULE NarProc ------------------------------
(* The procedural reasoner: event buffer, perception of predictive           *)
(* implications, evidence counting, anticipations, goals, goal derivation,   *)
(* decision making and execution.  Operators on explicit state components;   *)
(* used by the design model (MCProc) and by trace validation (TraceProc).    *)
(*                                                                            *)
(* event   [n, e, o]            term, evidence id, occurrence time           *)
(* belief  [t, s, pos, cnt, dt] dt = index of the interval, -1 = none        *)
(* goal    [id, t, s, f, c, d, dep, ct, ev, w]   w = depth batch, -1 active  *)
(* ops     function  name -> [bab, cnt]                                      *)
EXTENDS NarTerm, NarTruth, NarStamp

Range(q) == { q[k] : k \in 1..Len(q) }
LastN(q, n) == SubSeq(q, Max2(1, Len(q) - n + 1), Len(q))
Callable(ops, t) == IsOpTerm(t) /\ OpName(t) \in DOMAIN ops

----------------------------------------------------------------------------
(* exponential time intervals *)
IntervalTable == <<1, 2, 3, 4, 6, 8, 10, 13, 17>>          \* integer parts of 1.3^i up to 20
(* index (from 0) of the longest interval which is not longer than dt *)
IntervalIdx(tab, dt) == LET ks == { k \in 2..Len(tab) : tab[k] <= dt }
                        IN IF ks = {} THEN 0 ELSE (CHOOSE k \in ks : \A j \in ks : j <= k) - 1
Interval(tab, idx) == tab[Max2(idx, 0) + 1]

----------------------------------------------------------------------------
(* perception: a condition, operations after it, and the last or second last  *)
(* event as effect                                                            *)
RECURSIVE AscSeq(_)
AscSeq(J) == IF J = {} THEN <<>> ELSE LET m == CHOOSE x \in J : \A y \in J : x <= y IN <<m>> \o AscSeq(J \ {m})
OpIdx(ops, tr) == { k \in 1..Len(tr) : Callable(ops, tr[k].n) }
MinOf(J) == CHOOSE x \in J : \A y \in J : x <= y
MaxOf(J) == CHOOSE x \in J : \A y \in J : y <= x
OpSels(ops, tr, nops) == LET O == OpIdx(ops, tr)
                         IN { J \in SUBSET O : Cardinality(J) = 1 \/ (nops > 1 /\ Cardinality(J) = Min2(Cardinality(O), nops)) } \ {{}}
(* choices [i, J, k] the perception may make; i = 0: no event before the operation *)
Choices(ops, tr, nops) ==
  LET n == Len(tr)
      ks(J) == {n} \cup (IF n - 1 > MaxOf(J) /\ ~Callable(ops, tr[n - 1].n) THEN {n - 1} ELSE {})
  IN IF n < 3 THEN {}
     ELSE UNION { IF MinOf(J) = 1 THEN { [i |-> 0, J |-> J, k |-> n] }
                  ELSE { [i |-> i, J |-> J, k |-> k] : i \in 1..(MinOf(J) - 1), k \in ks(J) }
                : J \in OpSels(ops, tr, nops) }
ValidChoice(ops, tr, c) ==
  /\ c.i > 0 /\ MaxOf(c.J) < c.k
  /\ ~Callable(ops, tr[c.i].n) /\ ~Callable(ops, tr[c.k].n)
  /\ tr[c.i].n # tr[c.k].n
Observation(ops, tab, tr, c) ==
  LET js == AscSeq(c.J)
      n  == ops[OpName(tr[js[1]].n)].cnt
  IN [ t   |-> Stmt("pimp", Cmp("seq", <<tr[c.i].n>> \o [k \in 1..Len(js) |-> tr[js[k]].n]), tr[c.k].n),
       s   |-> <<tr[c.i].e>> \o [k \in 1..Len(js) |-> tr[js[k]].e] \o <<tr[c.k].e>>,
       dt  |-> IntervalIdx(tab, tr[c.k].o - tr[js[Len(js)]].o),
       pos |-> n, cnt |-> n ]
Observations(ops, tab, tr, nops) == { Observation(ops, tab, tr, c) : c \in { c \in Choices(ops, tr, nops) : ValidChoice(ops, tr, c) } }

----------------------------------------------------------------------------
(* evidence *)
CntTv(b) == [f |-> CntF(b), c |-> CntC(b)]
CntExp(b) == Exp(CntTv(b))
HomeTerms(t) == Subterms(SeqCond(t)) \cup Subterms(Pred(t))     \* concepts which hold a predictive implication
(* a hypothesis absorbs an observation: same implication, independent evidence, interval at least as long *)
Absorbs(b, m) == b.t = m.t /\ b.dt >= m.dt /\ ~Overlap(b.s, m.s)
Absorbed(b, m) == [b EXCEPT !.s = Merge(b.s, m.s), !.pos = b.pos + m.pos, !.cnt = b.cnt + m.cnt]

(* introduction of a variable for the thing which has the property, if it occurs elsewhere *)
VarThing(t) == t[3][2][1][3]
IntroVar(t) == /\ IsStmtC(t, "pimp") /\ t[3][1] = "seq" /\ Len(t[3][2]) = 2
               /\ IsStmtC(t[3][2][1], "inh") /\ t[3][2][1][4][1] = "si"
               /\ CountOcc(t, VarThing(t)) >= 2

----------------------------------------------------------------------------
(* anticipations: a = <<belief id, deadline>> *)
Window(tr, w) == { x.n : x \in Range(LastN(tr, w)) }
Confirmed(bel, tr, w, a) == Pred(bel[a[1]].t) \in Window(tr, w)
Failed(bel, tr, w, t, a) == ~Confirmed(bel, tr, w, a) /\ a[2] <= t
AntAfter(bel, ant, tr, w, t) == SelectSeq(ant, LAMBDA a : ~Confirmed(bel, tr, w, a) /\ a[2] > t)
FailCount(bel, ant, tr, w, t, b) == Cardinality({ k \in 1..Len(ant) : ant[k][1] = b /\ Failed(bel, tr, w, t, ant[k]) })

----------------------------------------------------------------------------
(* goals *)
GTv(g) == [f |-> g.f, c |-> g.c]
GExp(g) == Exp(GTv(g))
GTol == 4
DedGoals(a, b) == LET x == DedGoalA(a, b)  y == DedGoalB(a, b)
                  IN CASE x.c > y.c + GTol -> {x}
                       [] y.c > x.c + GTol -> {y}
                       [] OTHER -> {x, y}
(* subgoals of a goal: a sequence is detached from its front, otherwise every  *)
(* belief which predicts the goal yields its antecedent                        *)
DetachOf(g) == [t |-> g.t[2][1], s |-> g.s, f |-> g.f, c |-> g.c, dep |-> g.dep + 1, ev |-> -1]
SubgoalsBy(g, id, b) ==
  IF IsStmtC(b.t, "pimp") /\ Pred(b.t) = g.t /\ ~Overlap(g.s, b.s)
  THEN { [t |-> Subj(b.t), s |-> Merge(g.s, b.s), f |-> tv.f, c |-> tv.c, dep |-> g.dep + 1, ev |-> id] : tv \in DedGoals(GTv(g), CntTv(b)) }
  ELSE {}
Detachable(g) == g.t[1] = "seq" /\ Len(g.t[2]) >= 1
(* usefulness decays with age: exp(-0.01 age) *)
GDecayTab == <<9900, 9802, 9608, 9231, 8521, 7261, 5273, 2780, 773, 60>>
RECURSIVE GDecayR(_, _, _)
GDecayR(age, k, acc) == IF age = 0 THEN acc
                        ELSE IF k > 10 THEN 0
                        ELSE GDecayR(age \div 2, k + 1, IF age % 2 = 1 THEN Mul(acc, GDecayTab[k]) ELSE acc)
GDecay(age) == GDecayR(age, 1, S)
GUtil(g, t) == Mul(Mul(GExp(g), g.d), GDecay(t - g.ct))
UTol == 14

(* where a goal is filed *)
GBatch(t, dep, ndepth) == IF IsOpTerm(t) THEN -1 ELSE Min2(dep, ndepth - 1)

----------------------------------------------------------------------------
(* decision: plans are sequences whose last element is the operation *)
Front(q) == IF Len(q) = 2 THEN q[1] ELSE Cmp("seq", SubSeq(q, 1, Len(q) - 1))
StatePlans(gs, states) ==      \* gs: set of goals
  UNION { { [seq |-> Subst(g.t, Unify(Front(g.t[2]), x).env), exp |-> GExp(g), ev |-> g.ev]
            : x \in { x \in states : Unify(Front(g.t[2]), x).ok } }
        : g \in { g \in gs : g.t[1] = "seq" /\ Len(g.t[2]) >= 1 } }
NoPlan == [seq |-> <<"none">>, exp |-> 0, ev |-> -1]
BestOf(ps, tol) == IF ps = {} THEN {NoPlan} ELSE { p \in ps : \A q \in ps : p.exp + tol >= q.exp }
Executable(p) == p.ev # -1 /\ p.seq[1] = "seq" /\ IsOpTerm(SeqLast(p.seq))

FirstGoal(q, x) == LET ks == { k \in 1..Len(q) : q[k].t = x } IN IF ks = {} THEN 0 ELSE MinOf(ks)
(* prediction: chains of at most two beliefs from the last event to a goal; Ante(x): beliefs whose condition is x *)
ChainPlans(Ante(_), bel, gl, tr) ==
  IF tr = <<>> THEN {NoPlan}
  ELSE LET e0 == tr[Len(tr)].n
           mk(b, tv) == [seq |-> Subj(bel[b].t), exp |-> Exp(tv), ev |-> b]
           one(b1) == LET x == Pred(bel[b1].t)
                          k == FirstGoal(gl, x)
                      IN IF k > 0 THEN { mk(b1, tv) : tv \in DedGoals(GTv(gl[k]), CntTv(bel[b1])) }
                         ELSE LET two(b2) == LET y == Pred(bel[b2].t)
                                                 j == FirstGoal(gl, y)
                                             IN IF j = 0 THEN {NoPlan}
                                                ELSE UNION { { mk(b1, tv) : tv \in DedGoals(tv1, CntTv(bel[b1])) }
                                                             : tv1 \in DedGoals(GTv(gl[j]), CntTv(bel[b2])) }
                              IN IF Ante(x) = {} THEN {NoPlan} ELSE UNION { two(b2) : b2 \in Ante(x) }
       IN IF Ante(e0) = {} THEN {NoPlan} ELSE UNION { one(b1) : b1 \in Ante(e0) }
(* plans which may win: the best of the plans for the situation and the predicted one *)
WinningPlans(Ante(_), bel, gl, tr, window) ==
  LET sb == BestOf(StatePlans(Range(gl), Window(tr, window)), 3)
  IN UNION { UNION { IF c.exp > s.exp + GTol THEN {c} ELSE IF s.exp > c.exp + GTol THEN {s} ELSE {c, s} : s \in sb } : c \in ChainPlans(Ante, bel, gl, tr) }
Above(x, thr) == x + GTol > thr       \* may be considered above the threshold
Below(x, thr) == x - GTol <= thr
OpGoal(bel, t, pl, id) == LET b == bel[pl.ev]
                          IN [id |-> id, t |-> SeqLast(pl.seq), s |-> b.s, f |-> CntTv(b).f, c |-> CntTv(b).c, d |-> S, dep |-> 0, ct |-> t, ev |-> pl.ev, w |-> -1]
(* goals (sequence) after the winning plan was turned into an operation goal; several if the threshold is hit exactly *)
WithOpGoal(gl, bel, thr, t, pl, id) ==
  LET g == OpGoal(bel, t, pl, id)
      add == IF \E k \in 1..Len(gl) : gl[k].w = -1 /\ gl[k].t = g.t /\ gl[k].s = g.s THEN gl ELSE Append(gl, g)
  IN IF ~Executable(pl) THEN {gl}
     ELSE (IF Above(pl.exp, thr) THEN {add} ELSE {}) \cup (IF Below(pl.exp, thr) THEN {gl} ELSE {})
(* the operation goal which is taken: index in gs, 0 = none *)
Takes(gs, thr) ==
  LET des == { k \in 1..Len(gs) : gs[k].w = -1 /\ gs[k].d > 0 }
      best == { k \in des : Above(GExp(gs[k]), thr) /\ \A j \in des : GExp(gs[k]) + GTol >= GExp(gs[j]) }
  IN best \cup (IF \A k \in des : Below(GExp(gs[k]), thr) THEN {0} ELSE {})
DropAtK(q, k) == SubSeq(q, 1, k - 1) \o SubSeq(q, k + 1, Len(q))
=============================================================================
