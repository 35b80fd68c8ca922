---------------------------- MODULE TraceShell ----------------------------
(* Validation of recorded sessions: lines given to the facade, sessions read  *)
(* from files or from the standard input, calls of library operations.        *)
EXTENDS NarShell, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, x
W(b, why) == IF b THEN TRUE ELSE PrintT(<<"WHY", why>>) /\ FALSE
R(s) == { s[k] : k \in 1..Len(s) }
Obs(e) == [cc |-> e.cc, ct |-> e.ct, t |-> e.t, tr |-> e.tr, ops |-> e.ops, bab |-> e.bab, qs |-> e.qs, bel |-> R(e.bel),
           tasks |-> R(e.tasks), idx |-> R(e.idx), gl |-> R(e.gl), proc |-> e.proc, ant |-> e.ant, sid |-> e.sid, nc |-> e.nc]
All == DOMAIN x
SameBut(y, fs) == \A f \in All \ fs : W(y[f] = x[f], <<"must not change", f>>)
IsOpEvent(ev) == IsOpTerm(ev.n)
(* step B on state a gives y *)
OkB(a, y) == /\ W(y.t = a.t + 1, "time")
             /\ W(y.tr = Last(a.tr, MaxTrace) \/ (\E k \in 1..Len(a.ops) : y.tr # <<>> /\ IsOpEvent(y.tr[Len(y.tr)]) /\ OpName(y.tr[Len(y.tr)].n) = a.ops[k].n
                                                                     /\ y.tr[Len(y.tr)].o = a.t /\ y.tr = Last(Append(a.tr, y.tr[Len(y.tr)]), MaxTrace)), "events after a step")
             /\ W(y.ant = a.ant \/ (Len(y.ant) = Len(a.ant) + 1 /\ SubSeq(y.ant, 1, Len(a.ant)) = a.ant), "anticipations after a step")
             /\ W(y.proc = a.proc, "a step changed predictive beliefs")
             /\ SameBut(y, {"t", "tr", "ant", "gl", "proc"})
(* a judgement about t was told with evidence id *)
OkJudgement(y, t, id) ==
  /\ W(\E b \in y.bel : b.t = t /\ id \in R(b.s), "told judgement is not believed")
  /\ W(\E k \in y.tasks : k.t = t /\ R(k.s) = {id}, "told judgement is not an open task")
  /\ W(\A b \in (y.bel \ x.bel) \cup (x.bel \ y.bel) : b.t = t, "another belief changed")
  /\ W(x.tasks \subseteq y.tasks /\ \A k \in y.tasks \ x.tasks : k.t = t /\ id \in R(k.s), "another task appeared or vanished")
Ids(p) == { p[k].id : k \in 1..Len(p) }
OkTell(s, y) ==
  LET k == TellKind(s)
  IN CASE k = "event" -> SameBut(y, {"tr", "sid"})
       [] k = "question" -> W(y.sid = x.sid + 1, "evidence id") /\ SameBut(y, {"qs", "sid", "nc"})
       [] k = "goal" -> /\ W(y.sid = x.sid + 1, "evidence id") /\ SameBut(y, {"gl", "sid"})
                        /\ W(y.gl = x.gl \cup {[t |-> s.t, s |-> <<x.sid>>, f |-> s.f, c |-> s.c]}, "told goal")
       [] k = "judgement" -> W(y.sid = x.sid + 1, "evidence id") /\ OkJudgement(y, s.t, x.sid) /\ SameBut(y, {"bel", "tasks", "idx", "sid", "nc"})
       [] k = "impl" -> /\ W(y.sid = x.sid + 1, "evidence id") /\ SameBut(y, {"proc", "sid"})
                        /\ W(\E j \in 1..Len(y.proc) : y.proc[j].t = s.t /\ x.sid \in R(y.proc[j].s), "told implication is not known")
                        /\ W(\A j \in 1..Len(y.proc) : x.sid \notin R(y.proc[j].s) => \E i \in 1..Len(x.proc) : x.proc[i] = y.proc[j], "another implication changed")
       [] OTHER -> W(y.sid \in {x.sid, x.sid + 1}, "evidence id") /\ SameBut(y, {"sid"})
RECURSIVE DigitsOf(_)
DigitsOf(n) == IF n < 10 THEN <<Digit[n]>> ELSE Append(DigitsOf(n \div 10), Digit[n % 10])
CountLine(n) == <<"c","o","n","c","e","p","t"," ","c","o","u","n","t"," ","="," ">> \o DigitsOf(n)
NameMap(ns) == [z \in { Cat(ns[k]) : k \in 1..Len(ns) } |-> ns[CHOOSE k \in 1..Len(ns) : Cat(ns[k]) = z]]
OkDt(e, y) == LET nm == NameMap(e.ns)
                  head(t) == <<"t","a","s","k"," "," ">> \o Write(t, nm, <<" ">>) \o <<".", " ">>
              IN /\ W(Len(e.ret) = e.ntasks, "one line per open task")
                 /\ W(\A k \in 1..Len(e.ret) : \E z \in x.tasks : Is(e.ret[k], 1, head(z.t)), "listed task is not open")
                 /\ W(\A z \in x.tasks : \E k \in 1..Len(e.ret) : Is(e.ret[k], 1, head(z.t)), "open task is not listed")
OkLine(e, y) ==
  LET k == Kind(e.c)
      d == Det(x, k)
  IN /\ W(e.quit = (k.k = "quit"), "quit")
     /\ \A f \in Fields : W(y[f] = d[f], <<"effect of the line on", f>>)
     /\ W(k.k = "tell" => y.qs = d.qs /\ y.tr = d.tr, "told event or question")
     /\ W(k.k \notin {"dt", "dmd"} => e.ret = <<>>, "unexpected output")
     /\ CASE k.k = "none" -> SameBut(y, IF e.c # <<>> THEN {} ELSE {})
          [] k.k = "stepA" -> W(y.ant = AntA(x) /\ y.proc = ProcA(x), "anticipations after step A") /\ SameBut(y, {"ant", "proc"})
          [] k.k = "stepB" -> OkB(x, y)
          [] k.k = "step" -> OkB([x EXCEPT !.ant = AntA(x), !.proc = ProcA(x)], y)
          [] k.k = "cycles" -> /\ SameBut(y, {"cc", "ct", "tasks", "idx"})
                               /\ W(y.tasks \subseteq x.tasks /\ Cardinality(y.tasks) >= Cardinality(x.tasks) - k.n, "tasks after cycles")
                               /\ W((k.n > 0 /\ x.tasks # {} /\ (x.cc + k.n) \div 111 = x.cc \div 111) => Cardinality(y.tasks) = (IF k.n > Cardinality(x.tasks) THEN 0 ELSE Cardinality(x.tasks) - k.n), "one task per cycle")
          [] k.k = "flush" -> W(y.tasks = {} /\ y.idx = {}, "tasks after flush") /\ SameBut(y, {"tasks", "idx"})
          [] k.k = "reg" -> SameBut(y, {"ops"})
          [] k.k = "babble" -> SameBut(y, {"bab"})
          [] k.k = "dt" -> OkDt(e, y) /\ SameBut(y, {})
          [] k.k = "dmd" -> W(e.ret = <<CountLine(x.nc)>>, "concept count") /\ SameBut(y, {})
          [] k.k = "quit" -> SameBut(y, {})
          [] k.k = "tell" -> OkTell(k.s, y)
(* inputN *)
OkInputN(e, y) == LET s == Sentence(e.c)
                      d == IF s.ok THEN Det(x, [k |-> "tell", s |-> s]) ELSE x
                  IN /\ W(e.r = s.ok, "result of inputN")
                     /\ W(y.qs = d.qs /\ y.tr = d.tr, "told event or question")
                     /\ IF s.ok THEN OkTell(s, y) ELSE SameBut(y, {})
(* operations of the library called with arguments *)
OkCall(e, y) ==
  LET r == CallOp(e.opsx, e.k, e.args, e.mem)
  IN /\ W(e.calls = r.calls, "operations invoked")
     /\ W(y.tr = x.tr \o [k \in 1..Len(r.evs) |-> [n |-> r.evs[k], e |-> x.t, o |-> x.t]], "injected events")
     /\ IF r.told = <<>> THEN SameBut(y, {"tr"})
        ELSE IF Len(r.told) = 1
        THEN IF Simple(r.told[1]) THEN W(y.sid = x.sid + 1, "evidence id") /\ OkJudgement(y, r.told[1], x.sid) /\ SameBut(y, {"tr", "bel", "tasks", "idx", "sid", "nc"})
                                       /\ W(\A k \in y.tasks : (k.t = r.told[1] /\ R(k.s) = {x.sid}) => k.f = S /\ k.c = 9000, "truth value of the told relation")
             ELSE SameBut(y, {"tr", "sid"})
        ELSE /\ W(y.sid = x.sid + Len(r.told), "evidence ids")
             /\ W(\A k \in 1..Len(r.told) : Simple(r.told[k]) => \E b \in y.bel : b.t = r.told[k], "told relations")
             /\ SameBut(y, {"tr", "bel", "tasks", "idx", "sid", "nc"})
OkSession(e) ==
  LET r == Session(Start0, e.lines, 1, <<>>, e.inter)
      s == r.s
      y == Obs(e)
      nev == Cardinality({ k \in 1..Len(e.gl) : TRUE })
  IN /\ W(e.ended, "the session did not end")
     /\ W(e.inter \/ e.quit = r.quit, "quit")
     /\ W(y.cc = s.cc /\ y.ct = s.ct, <<"number of cycles", s.cc>>)
     /\ W(y.t = s.t, <<"number of steps", s.t>>)
     /\ W(y.ops = s.ops /\ y.bab = s.bab, "registered operations, exploration")
     /\ W(Last(y.tr, MaxTrace) = Last(s.tr, MaxTrace), <<"events in order", s.tr>>)
     /\ W(y.qs = s.qs, <<"questions in order", s.qs>>)
     /\ W({ b.t : b \in y.bel } = s.belt, <<"told judgements", s.belt>>)
     /\ W(e.nids = s.nj, <<"evidence of the told judgements", s.nj>>)
     /\ W({ g.t : g \in y.gl } = R(s.glt) /\ (s.t = 0 => Len(e.gl) = Len(s.glt)), "told goals")
     /\ W(s.implt \subseteq { y.proc[k].t : k \in 1..Len(y.proc) }, "told implications")
     /\ W(e.sid >= s.nj, "evidence ids")
Ok(e) ==
  CASE e.op = "start" -> TRUE
    [] e.op = "line" -> OkLine(e, Obs(e))
    [] e.op = "inputn" -> OkInputN(e, Obs(e))
    [] e.op = "set" -> TRUE
    [] e.op = "call" -> OkCall(e, Obs(e))
    [] e.op = "opinfo" -> W(e.n = e.wn /\ e.bab = e.wbab, "name of the operation, use in exploration")
    [] e.op = "session" -> OkSession(e)
    [] OTHER -> FALSE
Init == l = 0 /\ x = <<>>
Stateless == {"opinfo", "session"}
Next == /\ l < Len(Trace)
        /\ IF Ok(Trace[l + 1]) THEN TRUE ELSE PrintT(<<"REJECTED", l + 1>>) /\ FALSE
        /\ x' = IF Trace[l + 1].op \in Stateless \cup {"panic", "hang", "died"} THEN x ELSE Obs(Trace[l + 1])
        /\ l' = l + 1
Spec == Init /\ [][Next]_<<l, x>>
Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
