----------------------------- MODULE TraceDecl -----------------------------
(* Validation of recorded behaviours of the declarative reasoner.  The state  *)
(* after every event is logged (beliefs as a difference); each event must be  *)
(* the step of NarDecl which its name and arguments describe.  ASPECT selects *)
(* the property whose obligations are enforced.                               *)
EXTENDS NarDecl, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
Asp == IOEnv.ASPECT
VARIABLES l, st

Has(e, f) == f \in DOMAIN e
A(x) == Asp = x \/ Asp = "all"

ApplyCon(con, ch, gone) ==
  LET chT == { ch[k][1] : k \in 1..Len(ch) }
      gT  == { gone[k] : k \in 1..Len(gone) }
  IN [t \in (DOMAIN con \ gT) \cup chT |->
        IF t \in chT THEN ch[CHOOSE k \in 1..Len(ch) : ch[k][1] = t][2] ELSE con[t]]
Empty == [t \in {} |-> 0]
Post(e) == [ tasks |-> e.tasks, idx |-> IdxOf(e.idx), qs |-> e.qs, cc |-> e.cc, ct |-> e.ct, sid |-> e.sid,
             con |-> ApplyCon(st.con, e.con, e.gone), pcon |-> ApplyCon(st.pcon, e.pcon, e.pgone),
             cap |-> st.cap, maxcx |-> st.maxcx, pool |-> st.pool,
             told |-> IF st.pool /\ e.op = "input" THEN Append(st.told, e.f) ELSE st.told ]
Start(e) == [ tasks |-> e.tasks, idx |-> IdxOf(e.idx), qs |-> e.qs, cc |-> e.cc, ct |-> e.ct, sid |-> e.sid,
              con |-> ApplyCon(Empty, e.con, e.gone), pcon |-> ApplyCon(Empty, e.pcon, e.pgone),
              cap |-> e.cap, maxcx |-> e.maxcx, pool |-> Has(e, "pool"), told |-> <<>> ]

W(b, why) == IF b THEN TRUE ELSE PrintT(<<"WHY", why>>) /\ FALSE

----------------------------------------------------------------------------
(* obligations which hold in every state *)
TermsOf(x) == Subterms(x.t)
Tables(con) == { con[t].exp : t \in DOMAIN con } \cup { con[t].use : t \in DOMAIN con }
InvStamp(p) == /\ \A k \in 1..Len(p.tasks) : NoDup(p.tasks[k].s) /\ Len(p.tasks[k].s) <= StampMax
               /\ \A q \in Tables(p.con) : \A k \in 1..Len(q) : NoDup(q[k].s) /\ Len(q[k].s) <= StampMax
InvBounds(p) ==
  /\ \A q \in Tables(p.con) : Len(q) <= p.cap /\ \A k \in 1..Len(q) : Complexity(q[k].t) <= p.maxcx
  /\ \A k \in 1..Len(p.tasks) : Complexity(p.tasks[k].t) <= p.maxcx
InvTables(p) ==     \* a belief is filed under every concept it mentions only, each evidence at most once per table
  /\ \A t \in DOMAIN p.con : /\ p.con[t].nm = t
                             /\ \A k \in 1..Len(p.con[t].exp) : t \in Subterms(p.con[t].exp[k].t)
                             /\ \A k \in 1..Len(p.con[t].use) : t \in Subterms(p.con[t].use[k].t)
  /\ \A q \in Tables(p.con) : \A k \in 1..Len(q) : ValidTv(TvB(q[k]))
  /\ \A q \in Tables(p.con) : \A i, j \in 1..Len(q) : q[i].t = q[j].t => i = j   \* what can be pooled is pooled
InvIdx(p) ==        \* every open task is found under each of its subterms
  /\ \A k \in 1..Len(p.tasks) : \A t \in Subterms(p.tasks[k].t) : t \in DOMAIN p.idx /\ p.tasks[k].id \in SeqIds(p.idx[t])
InvTasks(p) == TasksUnique(p.tasks) /\ Cardinality(TaskIds(p.tasks)) = Len(p.tasks)

(* in runs where every told sentence carries one unit of evidence (pool): the truth value of every *)
(* sentence is the one of the pooled evidence its stamp names, nothing counted twice or lost       *)
PoolTv(p, s) == LET n == Len(s)
                    pos == SumSeq([k \in 1..n |-> p.told[s[k] + 1]])
                IN [f |-> pos \div n, c |-> (n * S) \div (n + 1)]
PoolOk(p, x) == /\ Ids(x.s) \subseteq 0..(Len(p.told) - 1)
                /\ NearTv(TvB(x), PoolTv(p, x.s), 3)
InvPool(p) == p.pool => /\ \A k \in 1..Len(p.tasks) : PoolOk(p, p.tasks[k])
                        /\ \A q \in Tables(p.con) : \A k \in 1..Len(q) : PoolOk(p, q[k])

Inv(p) == /\ (A("C01") => W(InvStamp(p), "a stamp contains evidence twice"))
          /\ (A("C01") => W(InvPool(p), "truth value is not the one of the pooled evidence"))
          /\ (A("C08") => W(InvBounds(p), "bound exceeded"))
          /\ (A("C07") => W(InvTables(p), "belief filed under wrong concept"))
          /\ (A("C08") => W(InvIdx(p), "task index out of sync"))
          /\ (A("C10") => W(InvTasks(p), "duplicate task"))

----------------------------------------------------------------------------
(* a judgement b is added (told, or directly); tasks2 etc. are in p *)
OkTasksAfterAdd(b, mul, p) ==
  LET new == NewTasks(st.tasks, p.tasks)
      revs == IF Complexity(b.t) > st.maxcx THEN {} ELSE RevisionsOf(st.con, b)
      ok == Complexity(b.t) <= st.maxcx
      had == HasTask(st.tasks, b.t, b.s)
  IN /\ \A k \in 1..Len(st.tasks) : \E j \in 1..Len(p.tasks) : p.tasks[j] = [st.tasks[k] EXCEPT !.calc = p.tasks[j].calc]
     /\ Len(p.tasks) = Len(st.tasks) + Len(new)
     /\ \A k \in 1..Len(new) :
           /\ SameTaskSentence(new[k], b) \/ (\E r \in revs : SameTaskSentence(new[k], r))
           /\ new[k].mul = mul /\ new[k].dt = p.cc /\ new[k].qa = 0
           /\ Near(new[k].cr, 1000000 \div Complexity(new[k].t), 2)
     /\ ok => HasTask(p.tasks, b.t, b.s)
     /\ ~ok => Len(new) = 0
     /\ (ok /\ ~had /\ revs # {}) => \E r \in revs : HasTask(p.tasks, r.t, r.s)
     /\ TasksUnique(p.tasks)

OkAddJ(b, mul, cap, maxcx, time, p) ==
  /\ (A("C07") => W(OkMemAdd(st.con, b, cap, maxcx, time, p.con), "belief memory"))
  /\ (A("C08") => W(Complexity(b.t) > maxcx => p.con = st.con, "too complex sentence was stored"))
  /\ (A("C10") => W(OkTasksAfterAdd(b, mul, p), "tasks after adding a judgement"))

(* told sentence *)
OkInput(e, p) ==
  LET b == [t |-> e.t, s |-> <<st.sid>>, f |-> e.f, c |-> e.c, lu |-> 0, uc |-> 0]
      new == NewTasks(st.tasks, p.tasks)
      told == SelectSeq(new, LAMBDA x : Len(x.s) = 1)
  IN /\ (A("C01") => /\ W(p.sid > st.sid, "evidence id was not consumed")
                     /\ W(\A k \in 1..Len(told) : told[k].s[1] >= st.sid /\ told[k].s[1] < p.sid, "told sentence without fresh evidence id"))
     /\ IF e.p = "J"
        THEN /\ OkAddJ(b, S, st.cap, st.maxcx, 0, p)
             /\ (A("C06") => p.qs = st.qs)
        ELSE /\ (A("C07") => W(p.con = st.con, "a question changed the beliefs"))
             /\ (A("C10") => W(p.tasks = st.tasks, "a question changed the judgement tasks"))
             /\ (A("C06") => W(Complexity(e.t) <= st.maxcx => p.qs = Append(st.qs, [t |-> e.t, e |-> 0, eh |-> 0]), "question was not registered"))

----------------------------------------------------------------------------
(* question answering *)
AnswerExps(q, bs) == { Exp(TvB(x)) : x \in { y \in bs : Unifies(q.t, y.t) } }
MaxSet(s, z) == IF s = {} THEN z ELSE Max2(z, CHOOSE m \in s : \A x \in s : m >= x)
BestAfter(q, bs) == MaxSet(AnswerExps(q, bs), q.e)
BeliefsFor(q, p) ==
  LET mem == IF IsStmtC(q.t, "pimp") THEN p.pcon ELSE p.con
  IN UNION { { mem[t].exp[k] : k \in 1..Len(mem[t].exp) } \cup { mem[t].use[k] : k \in 1..Len(mem[t].use) }
           : t \in Subterms(q.t) \cap DOMAIN mem }
(* answers reported for the question q: strictly better each time, each one unifies and comes from bs *)
AnsOf(e, q) == SelectSeq(e.ans, LAMBDA a : a.q = q.t)
OkAnswers(e, qs, cand(_)) ==
  /\ \A k \in 1..Len(e.ans) : \E j \in 1..Len(qs) : qs[j].t = e.ans[k].q
  /\ \A j \in 1..Len(qs) :
       LET same == { i \in 1..Len(qs) : qs[i].t = qs[j].t }
           as == AnsOf(e, qs[j])
       IN /\ \A k \in 1..Len(as) : /\ as[k].p = "J"
                                   /\ Unifies(qs[j].t, as[k].t)
                                   /\ \E x \in cand(qs[j]) : SameBelief(x, as[k])
                                   /\ \E i \in same : as[k].eh > qs[i].eh
          /\ Cardinality(same) = 1 => \A k \in 1..Len(as) : (k = 1 => as[k].eh > qs[j].eh) /\ (k > 1 => as[k].eh > as[k-1].eh)
(* the best answer found is what was reported *)
OkBest(e, q, q2) == LET as == AnsOf(e, q) IN q2.eh > q.eh => \E k \in 1..Len(as) : as[k].eh = q2.eh

(* every registered handler hears every answer *)
OkHandlers(e) == (Has(e, "ans2") => e.ans2 = e.ans) /\ (Has(e, "ansq") => e.ansq = e.ans)

OkQaCycle(e, p) ==
  /\ Len(p.qs) = Len(st.qs)
  /\ \A k \in 1..Len(st.qs) : p.qs[k].t = st.qs[k].t
  /\ (Len(st.qs) = 0 => Len(e.ans) = 0)
  /\ (Len(st.qs) > 0 =>
        /\ \E k \in 1..Len(st.qs) :
             /\ Near(p.qs[k].e, BestAfter(st.qs[k], BeliefsFor(st.qs[k], st)), ETol)
             /\ OkBest(e, st.qs[k], p.qs[k])
             /\ \A j \in 1..Len(st.qs) : j # k => p.qs[j] = st.qs[j]
        /\ OkAnswers(e, st.qs, LAMBDA q : BeliefsFor(q, st)))

----------------------------------------------------------------------------
(* one reasoning cycle, up to sending the work to the deriver *)
Cx(x) == Complexity(x.t)
AfterCredit(x) == [x EXCEPT !.cr = CreditAfter(x.cr, Cx(x)), !.qa = (x.qa + QGain(x, st.qs) * 1000000) \div Cx(x)]
OkCreditOf(x, y) == LET z == AfterCredit(x) IN Near(z.cr, y.cr, 3) /\ Near(z.qa, y.qa, 3) /\ y.dt = x.dt /\ y.mul = x.mul /\ y.t = x.t /\ y.s = x.s /\ y.f = x.f /\ y.c = x.c

GeqRel(a, b) == a >= b \/ NearRel(a, b)
Rating(c) == MaxSet({ ExpB(c.exp[k]) : k \in 1..Len(c.exp) }, 0)
(* first n of a sequence *)
Take(q, n) == SubSeq(q, 1, Min2(n, Len(q)))
OkSecondary(m, prim) ==
  LET subs == Subterms(prim.t) \cap DOMAIN st.idx
      all  == UNION { SeqIds(st.idx[t]) : t \in subs }
      lim  == UNION { SeqIds(Take(st.idx[t], 51)) : t \in subs }
      sec  == SeqIds(m.sec)
  IN /\ NoDup(m.sec)
     /\ sec \subseteq lim
     /\ Len(m.sec) = Min2(300, Cardinality(lim))
     /\ \A i, j \in 1..Len(m.cx) : i < j => m.cx[i] <= m.cx[j]

(* the premises handed to the deriver count as used now *)
OkUse(x, y, sec, now) == IF y.id \in SeqIds(sec) THEN y.uc = x.uc + 1 /\ y.lu = now ELSE y.uc = x.uc /\ y.lu = x.lu

OkCycle(e, p) ==
  LET n == Len(st.tasks)
      m == e.msgs[1]
      prim == TaskById(st.tasks, m.pid)
      eff(x) == EffCredit(AfterCredit(x), p.cc)
      tidy == p.cc % 111 = 0
  IN /\ (A("C09") => W(p.cc = st.cc + 1 /\ p.ct = st.ct + 1, "cycle counter"))
     /\ (A("C06") => W(OkQaCycle(e, p), "question answering in the cycle"))
     /\ (A("C07") => W((p.cc % 173 # 0) => DOMAIN p.con = DOMAIN st.con, "cycle changed the concepts"))
     /\ (A("C07") => W(\A t \in DOMAIN p.con : SameTable(p.con[t].exp, st.con[t].exp) /\ SameTable(p.con[t].use, st.con[t].use), "cycle changed beliefs"))
     /\ (A("C08") => W((p.cc % 173 = 0 /\ Cardinality(DOMAIN st.con) <= 3000) => DOMAIN p.con = DOMAIN st.con, "concepts dropped without need"))
     /\ ((A("C08") /\ p.cc % 173 = 0 /\ Cardinality(DOMAIN st.con) > 3000) =>
           LET gone == DOMAIN st.con \ DOMAIN p.con
           IN /\ W(DOMAIN p.con \subseteq DOMAIN st.con, "unknown concept appeared")
              /\ W(Cardinality(DOMAIN p.con) = 3000, "number of concepts after limiting")
              /\ W(\A x \in gone : \A y \in DOMAIN p.con : Rating(p.con[y]) + ETol >= Rating(st.con[x]), "better concept dropped"))
     /\ (A("C09") =>
           /\ W(Len(e.msgs) = (IF n > 0 THEN 1 ELSE 0), "number of derivation requests")
           /\ (n > 0 =>
                       /\ W(m.pid \in TaskIds(st.tasks), "primary is not an open task")
                       /\ W(\A k \in 1..n : GeqRel(eff(prim), eff(st.tasks[k])), "primary is not the task with most credit")
                       /\ W(m.cc = p.cc, "time of derivation request")
                       /\ W(m.pid \notin TaskIds(p.tasks), "primary was not removed")
                       /\ W(OkSecondary(m, prim), "secondary premises")
                       /\ W(\A k \in 1..Len(p.tasks) : OkCreditOf(TaskById(st.tasks, p.tasks[k].id), p.tasks[k]), "credits")
                       /\ W(\A k \in 1..Len(p.tasks) : NearRel(EffCredit(p.tasks[k], p.cc), p.tasks[k].calc), "effective credit")
                       /\ W(\A k \in 1..Len(p.tasks) : OkUse(TaskById(st.tasks, p.tasks[k].id), p.tasks[k], m.sec, p.ct), "usage of tasks")
                       /\ W(~tidy => TaskIds(p.tasks) = TaskIds(st.tasks) \ {m.pid}, "open tasks after cycle")))
     /\ ((A("C08") /\ n > 0) =>
           /\ W(~tidy => p.idx = st.idx, "index changed by a cycle")
           /\ (tidy =>
                LET rest == { k \in 1..n : st.tasks[k].id # m.pid }
                    kept == TaskIds(p.tasks)
                IN /\ W(Len(p.tasks) <= 30, "too many tasks")
                   /\ W(kept \subseteq TaskIds(st.tasks), "unknown task appeared")
                   /\ W(\A k \in 1..Len(p.tasks) : p.tasks[k].calc >= 1000, "worthless task kept")
                   /\ W(\A k \in rest : st.tasks[k].id \in kept \/ eff(st.tasks[k]) <= 1100
                          \/ (Len(p.tasks) = 30 /\ \A j \in 1..Len(p.tasks) : GeqRel(p.tasks[j].calc, eff(st.tasks[k]))), "valuable task dropped")
                   /\ W(DOMAIN p.idx = UNION { Subterms(p.tasks[k].t) : k \in 1..Len(p.tasks) }, "index domain after tidy")
                   /\ W(\A t \in DOMAIN p.idx : SeqIds(p.idx[t]) = { p.tasks[k].id : k \in { k \in 1..Len(p.tasks) : t \in Subterms(p.tasks[k].t) } }, "index after tidy")))

----------------------------------------------------------------------------
(* the deriver: conclusions of the primary alone, with each secondary premise *)
(* and with each belief of the primary's concept, evidence permitting         *)
ConclB1(prim) == { [t |-> x.t, s |-> prim.s, f |-> x.tv.f, c |-> x.tv.c, b |-> x.b] : x \in OnePremise(prim.t, TvB(prim)) }
ConclB2(prim, q) ==
  IF Overlap(prim.s, q.s) THEN {}
  ELSE { [t |-> x.t, s |-> Merge(prim.s, q.s), f |-> x.tv.f, c |-> x.tv.c, b |-> 100]
         : x \in TwoPremise(prim.t, "J", TvB(prim), q.t, "J", TvB(q)) }
Partners(e, prim) ==
  { e.sec[k] : k \in 1..Len(e.sec) }
  \cup (IF prim.t \in DOMAIN st.con
        THEN { st.con[prim.t].exp[k] : k \in 1..Len(st.con[prim.t].exp) } \cup { st.con[prim.t].use[k] : k \in 1..Len(st.con[prim.t].use) }
        ELSE {})
Conclusions(e) == ConclB1(e.prim) \cup UNION { ConclB2(e.prim, q) : q \in Partners(e, e.prim) }

OkDerive(e, p) ==
  LET cs == Conclusions(e)
      fit == { x \in cs : Complexity(x.t) <= st.maxcx }
      new == NewTasks(st.tasks, p.tasks)
      lineage(t) == UNION { Ids(x.s) : x \in { y \in fit : y.t = t } }
                    \cup (IF t \in DOMAIN st.con THEN UNION ({ Ids(b.s) : b \in { st.con[t].exp[k] : k \in 1..Len(st.con[t].exp) } } \cup { Ids(b.s) : b \in { st.con[t].use[k] : k \in 1..Len(st.con[t].use) } }) ELSE {})
  IN /\ (A("C10") =>
           /\ W(\A k \in 1..Len(st.tasks) : \E j \in 1..Len(p.tasks) : p.tasks[j] = st.tasks[k], "an open task was changed by the deriver")
           /\ W(Len(p.tasks) = Len(st.tasks) + Len(new), "an open task vanished")
           /\ W(\A x \in fit : HasTask(p.tasks, x.t, x.s), "a conclusion was not delivered")
           /\ \A k \in 1..Len(new) :
                /\ W(\/ \E x \in fit : SameTaskSentence(x, new[k]) /\ Near(new[k].mul, (e.prim.mul * x.b) \div 100, 2)
                     \/ (Len(new[k].s) > 1 /\ (\E x \in fit : x.t = new[k].t) /\ Ids(new[k].s) \subseteq lineage(new[k].t)), "task which is not a conclusion")
                /\ W(new[k].dt = p.cc /\ new[k].qa = 0 /\ Near(new[k].cr, 1000000 \div Complexity(new[k].t), 2), "credit of a new task"))
     /\ (A("C10") => W(p.cc = st.cc, "deriver changed time"))
     /\ (A("C10") => W(
           \A x \in fit : \A t \in Subterms(x.t) :
              /\ t \in DOMAIN p.con
              /\ \E y \in cs : y.t = x.t
              /\ (Known(p.con[t].exp, x) \/ Len(p.con[t].exp) = p.cap \/ AnyRevises(st.con, x) \/ Cardinality({ y \in fit : y.t = x.t }) > 1)
              /\ (Known(p.con[t].use, x) \/ Len(p.con[t].use) = p.cap \/ AnyRevises(st.con, x) \/ Cardinality({ y \in fit : y.t = x.t }) > 1), "a conclusion was not stored"))
     /\ (A("C07") => W(\A t \in DOMAIN p.con : (t \in DOMAIN st.con /\ st.con[t] = p.con[t]) \/ \E x \in fit : t \in Subterms(x.t), "deriver touched a concept no conclusion is about"))
     /\ (A("C06") => /\ W(Len(p.qs) = Len(st.qs) /\ \A k \in 1..Len(st.qs) : p.qs[k].t = st.qs[k].t, "questions changed")
                     /\ W(\A k \in 1..Len(st.qs) : Near(p.qs[k].e, BestAfter(st.qs[k], cs), ETol), "best answer after derivation")
                     /\ W(\A k \in 1..Len(st.qs) : OkBest(e, st.qs[k], p.qs[k]), "best answer was not reported")
                     /\ W(OkAnswers(e, st.qs, LAMBDA q : cs), "reported answers"))
     /\ (A("C01") => W(\A k \in 1..Len(new) : Ids(new[k].s) \subseteq 0..(p.sid - 1), "stamp with unknown evidence"))

(* a sentence was used: the belief tables hold the same sentence, so its rank by usage follows *)
OkUsed(e, p) ==
  LET x == TaskById(p.tasks, e.id)
      all == UNION { { q[k] : k \in 1..Len(q) } : q \in Tables(p.con) }
  IN A("C07") => /\ W(x.lu = e.time /\ x.uc = TaskById(st.tasks, e.id).uc + 1, "usage of task")
                 /\ W((Len(x.s) = 1 /\ \A q \in Tables(p.con) : Len(q) < p.cap) => \A b \in all : (b.t = x.t /\ b.s = x.s) => (b.lu = x.lu /\ b.uc = x.uc), "usage of belief")

----------------------------------------------------------------------------
OkLimit(e) ==
  LET pre == { e.pre[k] : k \in 1..Len(e.pre) }
      post == { e.post[k] : k \in 1..Len(e.post) }
  IN /\ post \subseteq pre
     /\ Cardinality(post) = Min2(e.n, Cardinality(pre))
     /\ \A x \in pre \ post : \A y \in post : Rating(y[2]) + ETol >= Rating(x[2])

Ok(e) ==
  CASE e.op \in {"start", "sync"} -> TRUE
    [] Has(e, "ans") /\ A("C06") /\ ~OkHandlers(e) -> W(FALSE, "a handler did not hear an answer")
    [] e.op = "input"  -> OkInput(e, Post(e))
    [] e.op = "add"    -> OkAddJ(e.b, e.mul, e.cap, e.maxcx, e.time, Post(e))
    [] e.op = "cycle"  -> OkCycle(e, Post(e))
    [] e.op = "derive" -> OkDerive(e, Post(e))
    [] e.op = "used"   -> OkUsed(e, Post(e))
    [] e.op = "flush"  -> A("C17") => W(Post(e).tasks = <<>> /\ Post(e).con = st.con /\ Post(e).qs = st.qs, "flush of the tasks")
    [] e.op = "limit"  -> A("C08") => OkLimit(e)
    [] OTHER           -> FALSE      \* panic, hang, dead worker

Next1(e) == CASE e.op = "start" -> Start(e)
              [] e.op = "limit" -> st
              [] OTHER -> Post(e)
Init == l = 0 /\ st = [tasks |-> <<>>, idx |-> Empty, qs |-> <<>>, cc |-> 0, ct |-> 0, sid |-> 0, con |-> Empty, pcon |-> Empty, cap |-> 20, maxcx |-> 64, pool |-> FALSE, told |-> <<>>]
Next == /\ l < Len(Trace)
        /\ LET e == Trace[l + 1]
           IN IF Ok(e) /\ Inv(Next1(e)) THEN TRUE ELSE PrintT(<<"REJECTED", l + 1>>) /\ FALSE
        /\ st' = Next1(Trace[l + 1])
        /\ l' = l + 1
Spec == Init /\ [][Next]_<<l, st>>
Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
