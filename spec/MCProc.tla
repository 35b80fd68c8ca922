------------------------------- MODULE MCProc -------------------------------
(* Design model of the procedural reasoner: events and operations happen,     *)
(* goals and a plan are told, the reasoner perceives, the store worker works  *)
(* asynchronously through a channel, goals are derived, decisions are made    *)
(* and anticipations are resolved, in any interleaving.                       *)
(* The schedules are replayed into the implementation (mode script).          *)
EXTENDS NarProc, Json
CONSTANTS Depth, Samples, Emit
VARIABLES t, tr, ant, bel, gl, pend, sid, hist,
          log,                       \* ghost: everything that ever happened
          made, conf, failed,        \* ghost: anticipations made, confirmed and failed, per belief
          seen                       \* ghost: observations absorbed, per belief
core == <<t, tr, ant, bel, gl, pend, sid>>
ghost == <<log, made, conf, failed, seen>>
vars == <<t, tr, ant, bel, gl, pend, sid, hist, log, made, conf, failed, seen>>

Ops == [o \in {"^l", "^r"} |-> [bab |-> FALSE, cnt |-> 3]]
Tab == IntervalTable
Win == 2
Thr == 5800
EvA == Nm("a")   EvB == Nm("b")
OpL == MkOp(<<Self>>, "^l")
Plan0 == Stmt("pimp", Cmp("seq", <<EvA, OpL>>), EvB)
Happenings == {EvA, EvB, OpL}
Incr(f, k) == [f EXCEPT ![k] = @ + 1]
Zero == [k \in {} |-> 0]

Init == /\ t = 0 /\ tr = <<>> /\ ant = <<>> /\ bel = <<>> /\ gl = <<>> /\ pend = <<>> /\ sid = 1000 /\ hist = <<>>
        /\ log = {} /\ made = <<>> /\ conf = <<>> /\ failed = <<>> /\ seen = <<>>
Log(x) == /\ Len(hist) < Depth
          /\ hist' = Append(hist, x)
          /\ (Emit /\ Len(hist') = Depth) => PrintT("BEHAVIOUR " \o ToJson(hist'))
Happen(q, x) == LastN(Append(q, [n |-> x, e |-> t, o |-> t]), 20)
Event == \E x \in Happenings :
           /\ tr' = Happen(tr, x) /\ log' = log \cup {[n |-> x, e |-> t]}
           /\ UNCHANGED <<t, ant, bel, gl, pend, sid, made, conf, failed, seen>>
           /\ Log([a |-> "event", x |-> x])
NewGoal(q, g) == IF \E k \in 1..Len(q) : q[k].t = g.t /\ q[k].s = g.s THEN q ELSE Append(q, g)
Goal == /\ sid < 1002
        /\ gl' = NewGoal(gl, [id |-> 0, t |-> EvB, s |-> <<sid>>, f |-> S, c |-> 9000, d |-> S, dep |-> 0, ct |-> t, ev |-> -1, w |-> 0])
        /\ sid' = sid + 1 /\ UNCHANGED <<t, tr, ant, bel, pend>> /\ UNCHANGED ghost
        /\ Log([a |-> "goal", x |-> EvB])
AddBel(b, src) == /\ bel' = Append(bel, b)
                  /\ made' = Append(made, 0) /\ conf' = Append(conf, 0) /\ failed' = Append(failed, 0) /\ seen' = Append(seen, <<src>>)
Tell == /\ sid < 1002 /\ bel = <<>>
        /\ AddBel([t |-> Plan0, s |-> <<sid>>, pos |-> 10, cnt |-> 10, dt |-> -1], [s |-> <<sid>>, n |-> 10])
        /\ sid' = sid + 1 /\ UNCHANGED <<t, tr, ant, gl, pend, log>>
        /\ Log([a |-> "belief", x |-> Plan0])
Step0 == LET fails == [k \in 1..Len(bel) |-> FailCount(bel, ant, tr, Win, t, k)]
             confs == [k \in 1..Len(bel) |-> Cardinality({ j \in 1..Len(ant) : ant[j][1] = k /\ Confirmed(bel, tr, Win, ant[j]) })]
             obs == Observations(Ops, Tab, tr, 1)
         IN /\ ant' = AntAfter(bel, ant, tr, Win, t)
            /\ bel' = [k \in 1..Len(bel) |-> [bel[k] EXCEPT !.cnt = @ + fails[k]]]
            /\ failed' = [k \in 1..Len(bel) |-> failed[k] + fails[k]]
            /\ conf' = [k \in 1..Len(bel) |-> conf[k] + confs[k]]
            /\ gl' = [k \in 1..Len(gl) |-> IF tr # <<>> /\ gl[k].t = tr[Len(tr)].n THEN [gl[k] EXCEPT !.d = 0] ELSE gl[k]]
            /\ IF obs = {} \/ Len(pend) >= Samples THEN UNCHANGED pend ELSE \E m \in obs : pend' = Append(pend, m)
            /\ UNCHANGED <<t, tr, sid, log, made, seen>>
            /\ Log([a |-> "step0"])
Store == /\ pend # <<>>
         /\ LET m == Head(pend)
                R == { k \in 1..Len(bel) : Absorbs(bel[k], m) }
                src == [s |-> m.s, n |-> m.pos]
            IN IF R # {}
               THEN /\ bel' = [k \in 1..Len(bel) |-> IF k \in R THEN Absorbed(bel[k], m) ELSE bel[k]]
                    /\ seen' = [k \in 1..Len(bel) |-> IF k \in R THEN Append(seen[k], src) ELSE seen[k]]
                    /\ UNCHANGED <<made, conf, failed>>
               ELSE IF \E k \in 1..Len(bel) : bel[k].t = m.t /\ Overlap(bel[k].s, m.s)
               THEN UNCHANGED <<bel, made, conf, failed, seen>>
               ELSE AddBel(m, src)
         /\ pend' = Tail(pend) /\ UNCHANGED <<t, tr, ant, gl, sid, log>>
         /\ Log([a |-> "store"])
Ante(x) == { b \in 1..Len(bel) : Subj(bel[b].t)[1] = "seq" /\ Subj(bel[b].t)[2][1] = x }
Step1 == /\ \E pl \in WinningPlans(Ante, bel, gl, tr, Win) : \E gs \in WithOpGoal(gl, bel, Thr, t, pl, 0) : \E k \in Takes(gs, Thr) :
              IF k > 0 /\ gs[k].ev # -1
              THEN /\ gl' = DropAtK(gs, k)
                   /\ ant' = Append(ant, <<gs[k].ev, t + Interval(Tab, bel[gs[k].ev].dt)>>)
                   /\ tr' = Happen(tr, gs[k].t) /\ log' = log \cup {[n |-> gs[k].t, e |-> t]}
                   /\ made' = Incr(made, gs[k].ev)
              ELSE gl' = gs /\ UNCHANGED <<ant, tr, log, made>>
         /\ t' = t + 1 /\ UNCHANGED <<bel, pend, sid, conf, failed, seen>>
         /\ Log([a |-> "step1"])
RECURSIVE AddGoals(_, _)
AddGoals(q, xs) == IF xs = {} THEN q ELSE LET x == CHOOSE x \in xs : TRUE IN AddGoals(NewGoal(q, x), xs \ {x})
Level1(g) == IF Detachable(g) THEN { DetachOf(g) }
             ELSE UNION { SubgoalsBy(g, b, bel[b]) : b \in { b \in 1..Len(bel) : Pred(bel[b].t) = g.t } }
Derive == /\ \E k \in { k \in 1..Len(gl) : gl[k].w >= 0 } :
               gl' = AddGoals(gl, { [id |-> 0, t |-> x.t, s |-> x.s, f |-> x.f, c |-> x.c, d |-> S, dep |-> x.dep, ct |-> t, ev |-> x.ev, w |-> GBatch(x.t, x.dep, 8)] : x \in Level1(gl[k]) })
          /\ Len(gl') <= 6
          /\ UNCHANGED <<t, tr, ant, bel, pend, sid>> /\ UNCHANGED ghost
          /\ Log([a |-> "derive"])
Next == Event \/ Goal \/ Tell \/ Step0 \/ Store \/ Step1 \/ Derive
Spec == Init /\ [][Next]_vars
View == <<core, made, conf, failed, seen, Len(hist)>>

----------------------------------------------------------------------------
(* learning: every hypothesis names only what happened, and its counts are the sum of the observations it absorbed, *)
(* which do not share evidence, plus one for every failed prediction                                                *)
RECURSIVE SumN(_)
SumN(q) == IF q = <<>> THEN 0 ELSE Head(q).n + SumN(Tail(q))
InvCounts == \A k \in 1..Len(bel) : bel[k].pos = SumN(seen[k]) /\ bel[k].cnt = bel[k].pos + failed[k] /\ bel[k].cnt > 0
InvOnce == \A k \in 1..Len(bel) : \A i, j \in 1..Len(seen[k]) : i # j => ~Overlap(seen[k][i].s, seen[k][j].s)
InvSources == \A k \in 1..Len(bel) : \A i \in 1..Len(seen[k]) :
                LET s == seen[k][i].s IN s[1] >= 1000 \/ /\ [n |-> SeqCond(bel[k].t), e |-> s[1]] \in log
                                                         /\ [n |-> Pred(bel[k].t), e |-> s[Len(s)]] \in log
                                                         /\ s[1] <= s[2] /\ s[2] <= s[Len(s)]
(* anticipations: none is lost or resolved twice, none outlives its deadline *)
InvResolved == \A k \in 1..Len(bel) : made[k] = conf[k] + failed[k] + Cardinality({ j \in 1..Len(ant) : ant[j][1] = k })
InvDeadline == \A j \in 1..Len(ant) : ant[j][1] \in 1..Len(bel) /\ ant[j][2] <= t + 17
OnTime == [][(hist' # <<>> /\ hist'[Len(hist')].a = "step0") => \A j \in 1..Len(ant') : ant'[j][2] > t]_vars
NegOnlyByFail == [][\A k \in 1..Len(bel) : bel'[k].cnt - bel'[k].pos = bel[k].cnt - bel[k].pos + (failed'[k] - failed[k])]_vars
(* goals: sound, without repetition *)
InvGoals == \A j, k \in 1..Len(gl) : /\ gl[k].w = GBatch(gl[k].t, gl[k].dep, 8)
                                     /\ (j # k => ~(gl[j].t = gl[k].t /\ gl[j].s = gl[k].s))
                                     /\ NoDup(gl[k].s) \/ \E b \in 1..Len(bel) : ~NoDup(bel[b].s)
InvTvG == \A k \in 1..Len(gl) : ValidTv(GTv(gl[k]))
(* an operation is only executed for a purpose: some goal was told and a belief connects the operation to it *)
Purpose == [][Len(ant') > Len(ant) => (\E k \in 1..Len(gl) : gl[k].t = EvB) /\ Len(bel) > 0]_vars
=============================================================================
