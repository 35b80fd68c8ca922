----------------------------- MODULE TraceProc -----------------------------
(* Validation of recorded behaviours of the procedural reasoner: every event  *)
(* must be the step of NarProc which its name and arguments describe.         *)
EXTENDS NarProc, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
Asp == IOEnv.ASPECT
VARIABLES l, st

A(x) == Asp = x \/ Asp = "all"
W(b, why) == IF b THEN TRUE ELSE PrintT(<<"WHY", why>>) /\ FALSE
Empty == [t \in {} |-> 0]
Tol == 3

Upd(f, ch, gone) ==
  LET chT == { ch[k][1] : k \in 1..Len(ch) }
      gT  == Range(gone)
  IN [t \in (DOMAIN f \ gT) \cup chT |-> IF t \in chT THEN ch[CHOOSE k \in 1..Len(ch) : ch[k][1] = t][2] ELSE f[t]]
Post(e) == [ st EXCEPT !.t = e.t, !.tr = e.tr, !.ant = e.ant, !.gl = e.gl, !.byt = e.byt,
                       !.con = Upd(st.con, e.con, e.gone), !.bel = Upd(st.bel, e.bel, <<>>),
                       !.bab = IF "bab" \in DOMAIN e THEN e.bab ELSE st.bab ]
Start(e) == [ t |-> e.t, tr |-> e.tr, ant |-> e.ant, gl |-> e.gl, byt |-> e.byt, con |-> Upd(Empty, e.con, e.gone), bel |-> Upd(Empty, e.bel, <<>>),
              ops |-> [n \in { e.ops[k].n : k \in 1..Len(e.ops) } |-> e.ops[CHOOSE k \in 1..Len(e.ops) : e.ops[k].n = n]],
              tab |-> e.table, window |-> e.window, thr |-> e.thr, samples |-> e.samples, nops |-> e.nops, bab |-> e.babble, antic |-> e.antic,
              ncon |-> e.ncon, ncap |-> e.ncap, ncapin |-> e.ncapin, ngoals |-> e.ngoals, ndepth |-> e.ndepth, sat |-> e.sat ]

----------------------------------------------------------------------------
(* frame conditions, attributed to the property about the component *)
SameMem(p) == (A("C11") => W(p.con = st.con /\ { p.bel[b].t : b \in DOMAIN st.bel } = { st.bel[b].t : b \in DOMAIN st.bel }
                              /\ \A b \in DOMAIN st.bel : p.bel[b].s = st.bel[b].s /\ p.bel[b].pos = st.bel[b].pos /\ p.bel[b].dt = st.bel[b].dt /\ p.bel[b].t = st.bel[b].t, "evidence changed"))
SameCnt(p) == ((A("C11") \/ A("C12")) => W(\A b \in DOMAIN st.bel : p.bel[b].cnt = st.bel[b].cnt, "counts changed"))
SameAnt(p) == (A("C12") => W(p.ant = st.ant, "anticipations changed"))
SameGoals(p) == ((A("C15") \/ A("C13")) => W(p.gl = st.gl /\ p.byt = st.byt, "goals changed"))
SameTrace(p) == ((A("C11") \/ A("C13")) => W(p.tr = st.tr, "event buffer changed"))
SameTime(p) == W(p.t = st.t, "time changed")
NoCalls(e) == (A("C13") => W(e.calls = <<>>, "operation executed"))

GoalIds(q) == { q[k].id : k \in 1..Len(q) }
ById(q, id) == q[CHOOSE k \in 1..Len(q) : q[k].id = id]
NewIds(p) == GoalIds(p.gl) \ GoalIds(st.gl)
(* same goal apart from bookkeeping of the ranking *)
SameGoal(x, y) == /\ x.t = y.t /\ x.s = y.s /\ Near(x.f, y.f, Tol) /\ Near(x.c, y.c, Tol)
                  /\ x.d = y.d /\ x.dep = y.dep /\ x.ct = y.ct /\ x.ev = y.ev
HasGoal(q, t, s) == \E k \in 1..Len(q) : q[k].t = t /\ q[k].s = s

(* every state: goals are filed by kind, depth and term, each once, and found by the lookup *)
InvGoals(p) ==
  /\ W(\A k \in 1..Len(p.gl) : p.gl[k].w = GBatch(p.gl[k].t, p.gl[k].dep, p.ndepth) /\ p.gl[k].gt = p.gl[k].t /\ p.gl[k].p = "G", "goal filed wrongly")
  /\ W(\A j, k \in 1..Len(p.gl) : j # k => p.gl[j].id # p.gl[k].id /\ ~(p.gl[j].t = p.gl[k].t /\ p.gl[j].s = p.gl[k].s), "goal stored twice")
  /\ W(\A j, k \in 1..Len(p.gl) : (p.gl[j].w >= 0 /\ p.gl[j].w = p.gl[k].w /\ p.gl[j].t = p.gl[k].t) => p.gl[j].gi = p.gl[k].gi, "two groups for one goal term")
  /\ W(LET stored(t) == { p.gl[k].id : k \in { k \in 1..Len(p.gl) : p.gl[k].w >= 0 /\ p.gl[k].t = t } }
       IN /\ \A k \in 1..Len(p.byt) : stored(p.byt[k][1]) = Range(p.byt[k][2]) /\ Len(p.byt[k][2]) = Cardinality(Range(p.byt[k][2]))
          /\ \A k \in 1..Len(p.gl) : p.gl[k].w >= 0 => \E j \in 1..Len(p.byt) : p.byt[j][1] = p.gl[k].t, "lookup of goals by term")
InvMem(p) ==
  /\ W(\A t \in DOMAIN p.con : p.con[t].nm = t /\ \A b \in Range(p.con[t].exp) \cup Range(p.con[t].use) :
          IsStmtC(p.bel[b].t, "pimp") /\ t \in HomeTerms(p.bel[b].t) /\ p.bel[b].p = "J" /\ p.bel[b].cnt > 0 /\ p.bel[b].pos >= 0 /\ p.bel[b].pos <= p.bel[b].cnt, "belief in wrong concept or invalid counts")
  /\ W(\A t \in DOMAIN p.con : Len(p.con[t].exp) <= p.ncap /\ Len(p.con[t].use) <= p.ncap, "belief table too large")
Inv(p) == /\ (A("C15") => InvGoals(p))
          /\ (A("C11") => InvMem(p))

----------------------------------------------------------------------------
(* storing of evidence ms (the observation, and its copy with a variable) *)
KnownIn(tbl, m) == \E k \in 1..Len(tbl) : st.bel[tbl[k]].t = m.t /\ Overlap(st.bel[tbl[k]].s, m.s)
SameBel(b, m) == b.t = m.t /\ b.s = m.s /\ b.pos = m.pos /\ b.cnt = m.cnt /\ b.dt = m.dt
OkTable(old, ms, cap, p, new, ranked) ==
  LET add == { m \in ms : ~KnownIn(old, m) }
      fresh == Range(new) \ Range(old)
      lost == Range(old) \ Range(new)
  IN IF add = {} THEN new = old
     ELSE /\ Len(new) = Cardinality(Range(new))
          /\ Len(new) = Min2(Len(old) + Cardinality(add), cap)
          /\ \A b \in fresh : b \notin DOMAIN st.bel /\ \E m \in add : SameBel(p.bel[b], m)
          /\ \A m \in add : Cardinality({ b \in fresh : SameBel(p.bel[b], m) }) <= 1
          /\ Len(new) < cap => \A m \in add : \E b \in fresh : SameBel(p.bel[b], m)
          /\ ranked => /\ \A j, k \in 1..Len(new) : j < k => CntExp(p.bel[new[j]]) + Tol >= CntExp(p.bel[new[k]])
                       /\ \A b \in lost : \A k \in 1..Len(new) : CntExp(p.bel[new[k]]) + Tol >= CntExp(st.bel[b])
                       /\ \A m \in add : (\E b \in fresh : SameBel(p.bel[b], m)) \/ \A k \in 1..Len(new) : CntExp(p.bel[new[k]]) + Tol >= CntExp(m)
OkAddEvidence(m, cap, p) ==
  LET nv == { t \in DOMAIN p.con \ DOMAIN st.con : t[1] = "i" }
      intro == IntroVar(m.t)
      vs == IF intro THEN nv ELSE {<<"none">>}
  IN W(vs # {}, "no variable was introduced") /\
     \E v \in vs :
       LET ms == {m} \cup (IF intro THEN { [m EXCEPT !.t = Replace(m.t, VarThing(m.t), v)] } ELSE {})
           homes == UNION { HomeTerms(x.t) : x \in ms }
       IN /\ W(DOMAIN p.con = DOMAIN st.con \cup homes, "concepts which hold the evidence")
          /\ W(\A t \in DOMAIN st.con \ homes : p.con[t] = st.con[t], "other concepts changed")
          /\ \A t \in homes :
               LET mt == { x \in ms : t \in HomeTerms(x.t) }
                   old == IF t \in DOMAIN st.con THEN st.con[t] ELSE [exp |-> <<>>, use |-> <<>>]
               IN W(OkTable(old.exp, mt, cap, p, p.con[t].exp, TRUE) /\ OkTable(old.use, mt, cap, p, p.con[t].use, FALSE), <<"belief table", t>>)
          /\ W(\A b \in DOMAIN st.bel : p.bel[b] = st.bel[b], "another belief changed")
OkStore(m, p) ==
  LET cand == UNION { Range(st.con[t].exp) \cup Range(st.con[t].use) : t \in HomeTerms(m.t) \cap DOMAIN st.con }
      R == { b \in cand : Absorbs(st.bel[b], m) }
  IN IF R = {} THEN OkAddEvidence(m, st.ncap, p)
     ELSE /\ W(p.con = st.con /\ DOMAIN p.bel = DOMAIN st.bel, "evidence stored although it was added to existing beliefs")
          /\ W(\A b \in DOMAIN st.bel : p.bel[b] = IF b \in R THEN Absorbed(st.bel[b], m) ELSE st.bel[b], "evidence added wrongly")

----------------------------------------------------------------------------
OkNewGoal(p, x) ==     \* x [t,s,f,c,dep,ev] was added
  IF (IsOpTerm(x.t) /\ \E k \in 1..Len(st.gl) : st.gl[k].w = -1 /\ st.gl[k].t = x.t /\ st.gl[k].s = x.s)
     \/ (~IsOpTerm(x.t) /\ HasGoal(st.gl, x.t, x.s))
  THEN p.gl = st.gl
  ELSE /\ W(Cardinality(NewIds(p)) = 1 /\ Len(p.gl) = Len(st.gl) + 1, "goal was not added exactly once")
       /\ LET g == ById(p.gl, CHOOSE i \in NewIds(p) : TRUE)
          IN W(g.t = x.t /\ g.s = x.s /\ Near(g.f, x.f, Tol) /\ Near(g.c, x.c, Tol) /\ g.dep = x.dep /\ g.ev = x.ev /\ g.d = S /\ g.ct = st.t, "added goal")
       /\ W(\A k \in 1..Len(st.gl) : \E j \in 1..Len(p.gl) : p.gl[j].id = st.gl[k].id /\ SameGoal(p.gl[j], st.gl[k]), "other goals changed")

OkEvent(e, p) == /\ ((A("C11") \/ A("C13")) => W(p.tr = Append(st.tr, [n |-> e.x, e |-> st.t, o |-> st.t]), "event not recorded"))
                 /\ SameMem(p) /\ SameCnt(p) /\ SameAnt(p) /\ SameGoals(p) /\ SameTime(p) /\ NoCalls(e)
OkInput(e, p) ==
  CASE e.ev /\ e.p = "G" -> /\ (A("C15") => OkNewGoal(p, [t |-> e.x, s |-> <<e.sid>>, f |-> e.f, c |-> e.c, dep |-> 0, ev |-> -1]))
                            /\ SameMem(p) /\ SameCnt(p) /\ SameAnt(p) /\ SameTrace(p) /\ SameTime(p) /\ NoCalls(e)
    [] e.ev /\ e.p = "J" -> OkEvent(e, p)
    [] OTHER -> /\ (A("C11") => IF IsStmtC(e.x, "pimp") /\ e.p = "J" THEN OkAddEvidence([t |-> e.x, s |-> <<e.sid>>, pos |-> 10, cnt |-> 10, dt |-> -1], st.ncapin, p) ELSE p.con = st.con)
                /\ SameAnt(p) /\ SameGoals(p) /\ SameTrace(p) /\ SameTime(p) /\ NoCalls(e)

Strip(m) == [t |-> m.t, s |-> m.s, dt |-> m.dt, pos |-> m.pos, cnt |-> m.cnt]
Fulfilled(g, p) == p.sat /\ p.tr # <<>> /\ g.t = p.tr[Len(p.tr)].n
OkStep0(e, p) ==
  /\ (A("C12") =>
        /\ W(p.ant = AntAfter(st.bel, st.ant, st.tr, st.window, st.t), "anticipations after resolution")
        /\ W(\A b \in DOMAIN st.bel : p.bel[b].cnt = st.bel[b].cnt + FailCount(st.bel, st.ant, st.tr, st.window, st.t, b), "negative evidence"))
  /\ SameMem(p) /\ SameTrace(p) /\ SameTime(p) /\ NoCalls(e)
  /\ (A("C11") =>
        LET ch == Choices(st.ops, st.tr, st.nops)
            ok == { c \in ch : ValidChoice(st.ops, st.tr, c) }
            obs == Observations(st.ops, st.tab, st.tr, st.nops)
        IN /\ W(\A k \in 1..Len(e.msgs) : Strip(e.msgs[k]) \in obs /\ e.msgs[k].time = st.t /\ e.msgs[k].p = "J", "perceived what did not happen")
           /\ W(Len(e.msgs) <= st.samples, "too many observations")
           /\ W((ch # {} /\ ok = ch) => Len(e.msgs) = st.samples, "an observation was missed"))
  /\ (A("C15") => W(Len(p.gl) = Len(st.gl) /\ \A k \in 1..Len(st.gl) :
                       p.gl[k] = IF Fulfilled(st.gl[k], st) THEN [st.gl[k] EXCEPT !.d = 0] ELSE st.gl[k], "fulfilled goals"))
OkPercept(e, p) ==
  LET ch == Choices(st.ops, st.tr, st.nops)
      ok == { c \in ch : ValidChoice(st.ops, st.tr, c) }
  IN A("C11") => /\ W({ Strip(e.seen[k]) : k \in 1..Len(e.seen) } = Observations(st.ops, st.tab, st.tr, st.nops), "what can be perceived")
                 /\ W(e.hi <= st.samples /\ (ok = {} => e.hi = 0) /\ ((ch # {} /\ ok = ch) => e.lo = st.samples), "number of observations")

----------------------------------------------------------------------------
(* beliefs found for a term *)
Filed(x) == UNION { Range(st.con[t].exp) \cup Range(st.con[t].use) : t \in Subterms(x) \cap DOMAIN st.con }
ByCons(x) == { b \in Filed(x) : Pred(st.bel[b].t) = x }
ByAnte(x) == { b \in Filed(x) : Subj(st.bel[b].t)[1] = "seq" /\ Subj(st.bel[b].t)[2][1] = x }

Level1(g) == IF Detachable(g) THEN { DetachOf(g) } ELSE UNION { SubgoalsBy(g, b, st.bel[b]) : b \in ByCons(g.t) }
(* a derivation step justifies the new goal n with parent q *)
Justifies(q, n) == \E x \in Level1(q) : n.t = x.t /\ n.s = x.s /\ n.ev = x.ev /\ n.dep = x.dep /\ NearTv(GTv(n), GTv(x), GTol)
(* goals which follow from the stored ones in at most k steps and can lead to n; those in between need not be stored again *)
Leads(n, q) == q.dep < n.dep /\ Range(q.s) \subseteq Range(n.s)
RECURSIVE Reach(_, _)
Reach(n, k) == IF k <= 0 THEN { q \in { st.gl[j] : j \in { j \in 1..Len(st.gl) : st.gl[j].w >= 0 } } : Leads(n, q) }
               ELSE LET r == Reach(n, k - 1)
                        x == { q \in UNION { Level1(g) : g \in r } : Leads(n, q) }
                    IN r \cup x
CanSampleNone == \E k \in 1..Len(st.gl) : st.gl[k].w >= 0 /\ (st.gl[k].d = 0 \/ st.gl[k].f = 0)
OkDerive(e, p) ==
  LET new == { p.gl[k] : k \in { k \in 1..Len(p.gl) : p.gl[k].id \in NewIds(p) } }
      all == new \cup Range(st.gl)
      roots == { st.gl[k] : k \in { k \in 1..Len(st.gl) : st.gl[k].w >= 0 } }
  IN /\ (A("C14") =>
           /\ W(\A k \in 1..Len(st.gl) : \E j \in 1..Len(p.gl) : p.gl[j].id = st.gl[k].id /\ SameGoal(p.gl[j], st.gl[k]), "existing goals changed by derivation")
           /\ W(\A n \in new : n.d = S /\ n.ct = st.t /\ ((\E q \in all : Justifies(q, n)) \/ \E q \in Reach(n, Min2(e.rounds - 1, n.dep)) : Justifies(q, n)), "goal which does not follow")
           /\ W(\/ roots = {} /\ new = {}
                \/ new = {} /\ CanSampleNone
                \/ \E q \in roots : /\ \A x \in Level1(q) : HasGoal(p.gl, x.t, x.s)
                                    /\ e.rounds = 0 => \A n \in new : Justifies(q, n), "a subgoal of the sampled goal is missing"))
     /\ (A("C15") => W(\A k \in 1..Len(st.gl) : \E j \in 1..Len(p.gl) : p.gl[j].id = st.gl[k].id /\ SameGoal(p.gl[j], st.gl[k]), "existing goals changed by derivation"))
     /\ SameMem(p) /\ SameCnt(p) /\ SameAnt(p) /\ SameTrace(p) /\ SameTime(p) /\ NoCalls(e)

----------------------------------------------------------------------------
(* goals g (sequence) cut to the most useful ones: q *)
OkCut(g, q) ==
  /\ Len(q) = Min2(Len(g), st.ngoals)
  /\ \A k \in 1..Len(q) : \E j \in 1..Len(g) : g[j].id = q[k].id /\ SameGoal(g[j], q[k]) /\ Near(q[k].u, GUtil(g[j], st.t), UTol)
  /\ \A x \in { g[j] : j \in { j \in 1..Len(g) : g[j].id \notin GoalIds(q) } } : \A k \in 1..Len(q) : GUtil(q[k], st.t) + UTol >= GUtil(x, st.t)

(* plans which may win *)
Plans == WinningPlans(ByAnte, st.bel, st.gl, st.tr, st.window)
Called(t) == <<[n |-> OpName(t), a |-> OpArgs(t)]>>
BabCalls == { <<[n |-> o, a |-> <<Self>>]>> : o \in { o \in DOMAIN st.ops : st.ops[o].bab } }
Happened(t) == Append(st.tr, [n |-> t, e |-> st.t, o |-> st.t])
MatchGoals(gs, p) == IF st.t % 13 = 1 THEN OkCut(gs, p.gl)
                     ELSE Len(gs) = Len(p.gl) /\ \A k \in 1..Len(gs) : \E j \in 1..Len(p.gl) : gs[k].id = p.gl[j].id /\ SameGoal(gs[k], p.gl[j])
OkAfter(gs, calls, tr, ant, e, p) ==
  /\ e.calls = calls /\ p.tr = LastN(tr, 20) /\ p.ant = ant /\ MatchGoals(gs, p)
OkTake(gs, k, e, p) ==
  IF k > 0 /\ gs[k].ev # -1
  THEN LET t == gs[k].t
           reg == OpName(t) \in DOMAIN st.ops
           ant == IF st.antic THEN Append(st.ant, <<gs[k].ev, st.t + Interval(st.tab, st.bel[gs[k].ev].dt)>>) ELSE st.ant
       IN OkAfter(DropAtK(gs, k), IF reg THEN Called(t) ELSE <<>>, IF reg THEN Happened(t) ELSE st.tr, ant, e, p)
  ELSE \/ OkAfter(gs, <<>>, st.tr, st.ant, e, p)
       \/ (st.bab /\ \E c \in BabCalls : OkAfter(gs, c, Happened(MkOp(c[1].a, c[1].n)), st.ant, e, p))
OkDecide(e, p) ==
  LET id == IF NewIds(p) = {} THEN 0 ELSE CHOOSE i \in NewIds(p) : TRUE
  IN \E pl \in Plans : \E gs \in WithOpGoal(st.gl, st.bel, st.thr, st.t, pl, id) : \E k \in Takes(gs, st.thr) : OkTake(gs, k, e, p)
OkStep1(e, p) ==
  /\ ((A("C13") \/ A("C12")) => W(OkDecide(e, p), "decision, execution, anticipation and goals after the step"))
  /\ W(p.t = st.t + 1, "time")
  /\ ((A("C13") \/ A("C11")) => W(Len(p.tr) <= 20, "event buffer too large"))
  /\ (A("C15") => W(st.t % 13 = 1 => Len(p.gl) <= st.ngoals, "too many goals"))
  /\ IF st.t % 101 = 1 /\ Cardinality(DOMAIN st.con) > st.ncon
     THEN A("C11") => W(/\ DOMAIN p.con \subseteq DOMAIN st.con /\ Cardinality(DOMAIN p.con) = st.ncon
                        /\ \A t \in DOMAIN p.con : p.con[t] = st.con[t]
                        /\ LET rate(t) == MaxOf({0} \cup { CntExp(st.bel[b]) : b \in Range(st.con[t].exp) })
                           IN \A t \in DOMAIN st.con \ DOMAIN p.con : \A u \in DOMAIN p.con : rate(u) + Tol >= rate(t), "evidence memory limited wrongly")
     ELSE SameMem(p)
  /\ SameCnt(p)
OkBabble(e, p) == A("C13") =>
  LET want == IF st.bab THEN { [n |-> o, a |-> <<Self>>] : o \in { o \in DOMAIN st.ops : st.ops[o].bab } } ELSE {}
  IN W({ e.cs[k][1] : k \in 1..Len(e.cs) } = want, "random exploration")

----------------------------------------------------------------------------
OkQuery(e, p) ==
  /\ (A("C15") => W(e.r = (LET k == FirstGoal(st.gl, e.x) IN IF k = 0 THEN -1 ELSE st.gl[k].id), "query of goals"))
  /\ (A("C13") => LET ps == StatePlans(Range(st.gl), {e.x})
                  IN W(IF e.hid = -1 THEN \A x \in ps : x.exp <= Tol
                       ELSE \E x \in BestOf(ps, Tol) : x.seq = e.ht /\ Near(x.exp, e.he, Tol) /\ x.ev = ById(st.gl, e.hid).ev, "best plan for a state"))
  /\ (A("C14") => W(Range(e.cons) = ByCons(e.x) /\ Range(e.ante) = ByAnte(e.x), "beliefs found for a goal"))
  /\ SameMem(p) /\ SameCnt(p) /\ SameAnt(p) /\ SameGoals(p) /\ SameTrace(p)
Groups == { <<st.gl[k].w, st.gl[k].gi>> : k \in { k \in 1..Len(st.gl) : st.gl[k].w >= 0 } }
OkSample(e, p) == A("C15") =>
  LET batch == { k \in 1..Len(st.gl) : st.gl[k].w >= 0 }
      key(k) == [t |-> st.gl[k].t, s |-> st.gl[k].s, dep |-> st.gl[k].dep]
      lastOf(g) == MaxOf({ k \in batch : <<st.gl[k].w, st.gl[k].gi>> = g })
      dead == { g \in Groups : st.gl[lastOf(g)].acc + st.gl[lastOf(g)].d = 0 }
      single == \A g \in Groups : Cardinality({ k \in batch : <<st.gl[k].w, st.gl[k].gi>> = g }) = 1
      seen == Range(e.seen)
  IN /\ W(seen \subseteq { key(k) : k \in batch }, "sampled goal is not stored")
     /\ W(\A k \in batch : <<st.gl[k].w, st.gl[k].gi>> \in dead => key(k) \notin seen, "fulfilled goal was sampled")
     /\ W((single /\ e.n >= 500 /\ \A k \in batch : st.gl[k].acc = 0) => seen = { key(k) : k \in { k \in batch : st.gl[k].d > 0 } }, "every desired goal can be sampled")
     /\ W((batch # {} /\ dead = {}) => e.none = 0, "no goal sampled")
     /\ W(p.gl = st.gl, "sampling changed goals")
OkOccurred(e, p) == (A("C15") => W(Len(p.gl) = Len(st.gl) /\ \A k \in 1..Len(st.gl) :
                       p.gl[k] = IF st.sat /\ st.gl[k].t = e.x THEN [st.gl[k] EXCEPT !.d = 0] ELSE st.gl[k], "fulfilled goals"))
OkAddGoal(e, p) == A("C15") => OkNewGoal(p, [t |-> e.x, s |-> e.s, f |-> e.f, c |-> e.c, dep |-> e.dep, ev |-> e.ev])
OkLimitG(e, p) == A("C15") => W(OkCut(st.gl, p.gl), "goals kept by the limit")

(* pure calls *)
OkGoalBelief(e) == A("C14") =>
  LET b == [t |-> e.b, s |-> e.bs, pos |-> e.pos, cnt |-> e.cnt]
      xs == SubgoalsBy([t |-> e.g, s |-> e.gs, f |-> e.f, c |-> e.c, dep |-> 0], 0, b)
  IN W(IF xs = {} THEN e.r = <<>>
       ELSE Len(e.r) = 1 /\ \E x \in xs : e.r[1].t = x.t /\ e.r[1].s = x.s /\ NearTv(GTv(e.r[1]), GTv(x), GTol) /\ e.r[1].p = "G", "goal deduction")
OkDetach(e) == A("C14") =>
  LET g == [t |-> e.g, s |-> e.gs, f |-> e.f, c |-> e.c, dep |-> 0]
  IN W(IF ~Detachable(g) THEN e.r = <<>>
       ELSE Len(e.r) = 1 /\ e.r[1].t = DetachOf(g).t /\ e.r[1].s = e.gs /\ NearTv(GTv(e.r[1]), GTv(g), Tol) /\ e.r[1].p = "G", "goal detachment")
OkIntroVar(e) == A("C11") =>
  W(IF ~IntroVar(e.b.t) THEN e.r = <<>>
    ELSE /\ Len(e.r) = 1
         /\ \E v \in { x \in Subterms(e.r[1].t) : x[1] = "i" /\ x \notin Subterms(e.b.t) } : e.r[1].t = Replace(e.b.t, VarThing(e.b.t), v)
         /\ e.r[1].s = e.b.s /\ e.r[1].pos = e.b.pos /\ e.r[1].cnt = e.b.cnt /\ e.r[1].dt = e.b.dt, "introduction of a variable")

Ok(e) ==
  CASE e.op = "start"  -> W(e.table = IntervalTable, "table of intervals")
    [] e.op = "time"   -> TRUE
    [] e.op = "input"  -> OkInput(e, Post(e))
    [] e.op = "event"  -> OkEvent(e, Post(e))
    [] e.op = "step0"  -> OkStep0(e, Post(e))
    [] e.op = "store"  -> (A("C11") => OkStore(Strip(e.m), Post(e))) /\ SameAnt(Post(e)) /\ SameGoals(Post(e)) /\ SameTrace(Post(e)) /\ NoCalls(e)
    [] e.op = "step1"  -> OkStep1(e, Post(e))
    [] e.op = "derive" -> OkDerive(e, Post(e))
    [] e.op = "addgoal" -> OkAddGoal(e, Post(e))
    [] e.op = "occurred" -> OkOccurred(e, Post(e))
    [] e.op = "glimit" -> OkLimitG(e, Post(e))
    [] e.op = "query"  -> OkQuery(e, Post(e))
    [] e.op = "sample" -> OkSample(e, Post(e))
    [] e.op = "percept" -> OkPercept(e, Post(e))
    [] e.op = "babble" -> OkBabble(e, Post(e))
    [] e.op = "goalbelief" -> OkGoalBelief(e)
    [] e.op = "detach" -> OkDetach(e)
    [] e.op = "introvar" -> OkIntroVar(e)
    [] e.op = "interval" -> (A("C11") \/ A("C12")) => W(e.r = IntervalIdx(e.table, e.dt), "interval index")
    [] OTHER           -> FALSE      \* panic, hang, dead worker
PureOps == {"goalbelief", "detach", "introvar", "interval"}
Next1(e) == CASE e.op = "start" -> Start(e)
              [] e.op \in PureOps -> st
              [] OTHER -> Post(e)
Init == l = 0 /\ st = [gl |-> <<>>, byt |-> <<>>, con |-> Empty, bel |-> Empty, ndepth |-> 8, ncap |-> 100]
Next == /\ l < Len(Trace)
        /\ LET e == Trace[l + 1]
           IN IF Ok(e) /\ Inv(Next1(e)) THEN TRUE ELSE PrintT(<<"REJECTED", l + 1>>) /\ FALSE
        /\ st' = Next1(Trace[l + 1])
        /\ l' = l + 1
Spec == Init /\ [][Next]_<<l, st>>
Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
