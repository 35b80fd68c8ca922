----------------------------- MODULE TraceText -----------------------------
(* Validation of recorded calls of the parser and the printer.               *)
EXTENDS NarText, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
W(b, why) == IF b THEN TRUE ELSE PrintT(<<"WHY", why>>) /\ FALSE
OkParse(e) ==
  LET s == Sentence(e.c)
  IN IF ~s.ok THEN W(e.r = <<>>, "text which is not a sentence was accepted")
     ELSE /\ W(Len(e.r) = 1, "sentence was rejected")
          /\ LET r == e.r[1]
             IN /\ W(r.t = s.t, <<"parsed as another term", s.t>>)
                /\ W(r.p = s.p /\ r.e = s.ev, "punctuation or event marker")
                /\ W(Near(r.f, s.f, 1) /\ Near(r.c, s.c, 1), <<"truth value", s>>)
(* what is printed: the term in its spacious form; the names are given with their characters *)
NameMap(ns) == [x \in { Cat(ns[k]) : k \in 1..Len(ns) } |-> ns[CHOOSE k \in 1..Len(ns) : Cat(ns[k]) = x]]
OkPrint(e) == W(e.c = Write(e.t, NameMap(e.ns), <<" ">>), "printed text of the term")
OkPrintS(e) == W(e.c = Write(e.t, NameMap(e.ns), <<" ">>) \o <<e.p>>, "printed sentence") /\ W(e.tv = (e.p # "?") /\ (e.tv => e.f1 = e.f /\ e.c1 = e.cc), "printed truth value")
Ok(e) ==
  CASE e.op = "parse" -> OkParse(e)
    [] e.op = "print" -> OkPrint(e)
    [] e.op = "prints" -> OkPrintS(e)
    [] e.op = "deep" -> W(e.ok = (e.m # "" /\ e.k <= MaxNesting), "sentence nested deeper than allowed")
    [] OTHER -> FALSE
Init == l = 0
Next == /\ l < Len(Trace)
        /\ IF Ok(Trace[l + 1]) THEN TRUE ELSE PrintT(<<"REJECTED", l + 1>>) /\ FALSE
        /\ l' = l + 1
Spec == Init /\ [][Next]_l
Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
