------------------------------ MODULE NarShell ------------------------------
(* The reasoner as seen through its input facade: what every line does, and   *)
(* what the operations of the library do. Lines are sequences of characters.  *)
(*                                                                             *)
(* State (a record):                                                           *)
(*   cc, ct   number of reasoning cycles done, declarative time                *)
(*   t        procedural time;  tr  remembered events (n name, e evidence id,  *)
(*            o time), cut to the last 20 by every step                       *)
(*   ops      registered operations (n name, bab may be chosen by exploration) *)
(*   bab      exploration enabled                                              *)
(*   qs       asked questions (terms); bel  beliefs (t term, s evidence ids)   *)
(*   tasks    open tasks (t, s);  gl  goals (t, s)                             *)
(*   proc     predictive implications, by id: (t, s, pos, cnt)                 *)
(*   ant      anticipations (p predicted event, d deadline, b belief id)       *)
(*   sid      next evidence id;  nc number of concepts                         *)
EXTENDS NarText

MaxTrace == 20
MaxComplexity == 64
Last(s, n) == IF Len(s) <= n THEN s ELSE SubSeq(s, Len(s) - n + 1, Len(s))

RECURSIVE TrimNl(_)
TrimNl(c) == IF c # <<>> /\ c[Len(c)] \in {"\n", "\r"} THEN TrimNl(SubSeq(c, 1, Len(c) - 1)) ELSE c
Starts(c, w) == Is(c, 1, w)
(* words separated by white space *)
RECURSIVE Words(_, _)
Words(c, cur) ==
  IF c = <<>> THEN (IF cur = <<>> THEN <<>> ELSE <<cur>>)
  ELSE IF Head(c) \in Spaces THEN (IF cur = <<>> THEN <<>> ELSE <<cur>>) \o Words(Tail(c), <<>>)
  ELSE Words(Tail(c), Append(cur, Head(c)))
(* signed decimal number; malformed counts are 0 *)
RECURSIVE Dec(_, _)
Dec(c, acc) == IF c = <<>> THEN acc ELSE IF acc > 99999999 THEN acc ELSE Dec(Tail(c), acc * 10 + DigitVal(Head(c)))
AllDigits(c) == c # <<>> /\ \A k \in 1..Len(c) : c[k] \in Digits
RECURSIVE TooLong(_)   \* does not fit into 64 bits
TooLong(c) == IF c # <<>> /\ Head(c) = "0" THEN TooLong(Tail(c)) ELSE Len(c) > 18
Count(c) == CASE c = <<>> -> 1
              [] AllDigits(c) -> IF TooLong(c) THEN 0 ELSE Dec(c, 0)
              [] c[1] = "+" /\ AllDigits(Tail(c)) -> IF TooLong(Tail(c)) THEN 0 ELSE Dec(Tail(c), 0)
              [] OTHER -> 0
(* what a line is *)
Kind(c0) ==
  LET c == TrimNl(c0)
  IN CASE Starts(c, <<"/","/">>) -> [k |-> "none"]
       [] c = <<"!","s","p","A">> -> [k |-> "stepA"]
       [] c = <<"!","s","p","B">> -> [k |-> "stepB"]
       [] Starts(c, <<"!","s","p">>) -> [k |-> "step"]
       [] Starts(c, <<"!","s">>) -> [k |-> "cycles", n |-> Count(SubSeq(c, 3, Len(c)))]
       [] c = <<"!","d","t","f">> -> [k |-> "flush"]
       [] Starts(c, <<"!","p","o","r"," ">>) ->
            LET w == Words(SubSeq(c, 6, Len(c)), <<>>)
            IN CASE Len(w) = 1 /\ w[1] = <<"e","x","e","c","i","n","j">> -> [k |-> "reg", n |-> "^nal9_exeAndInject", bab |-> FALSE]
                 [] Len(w) = 1 /\ w[1] = <<"n","l","p","R","e","l","0">> -> [k |-> "reg", n |-> "^nlpRel0", bab |-> FALSE]
                 [] Len(w) = 2 /\ w[1] = <<"N","O","P">> -> [k |-> "reg", n |-> Cat(w[2]), bab |-> TRUE]
                 [] OTHER -> [k |-> "none"]
       [] c = <<"!","p","s","e">> -> [k |-> "none"]
       [] c = <<"!","p","e","b"," ","0">> -> [k |-> "babble", on |-> FALSE]
       [] c = <<"!","p","e","b"," ","1">> -> [k |-> "babble", on |-> TRUE]
       [] c = <<"!","d","t">> -> [k |-> "dt"]
       [] c = <<"!","d","m","d">> -> [k |-> "dmd"]
       [] c = <<"!","Q","Q">> -> [k |-> "quit"]
       [] c = <<>> -> [k |-> "none"]
       [] OTHER -> LET s == Sentence(c) IN IF s.ok THEN [k |-> "tell", s |-> s] ELSE [k |-> "none"]

(* the part of the state which is determined by the line, and never changes otherwise *)
Fields == {"cc", "ct", "t", "ops", "bab"}
Temporal(t) == t[1] = "s" /\ t[2] = "pimp"
Simple(t) == Complexity(t) <= MaxComplexity
IsQuestion(s) == s.p = "Q"
(* a told sentence is one of: event, goal, question, judgement, implication; everything else is an error *)
TellKind(s) == CASE s.ev /\ s.p = "G" -> "goal"
                 [] s.p = "Q" -> IF Simple(s.t) THEN "question" ELSE "error"
                 [] s.ev -> "event"
                 [] s.p = "G" -> "error"
                 [] Temporal(s.t) -> "impl"
                 [] OTHER -> IF Simple(s.t) THEN "judgement" ELSE "error"
Det(x, k) ==
  CASE k.k = "stepB" \/ k.k = "step" -> [x EXCEPT !.t = @ + 1]
    [] k.k = "cycles" -> [x EXCEPT !.cc = @ + k.n, !.ct = @ + k.n]
    [] k.k = "reg" -> [x EXCEPT !.ops = Append(@, [n |-> k.n, bab |-> k.bab])]
    [] k.k = "babble" -> [x EXCEPT !.bab = k.on]
    [] k.k = "tell" /\ TellKind(k.s) = "event" -> [x EXCEPT !.tr = Append(@, [n |-> k.s.t, e |-> x.t, o |-> x.t])]
    [] k.k = "tell" /\ TellKind(k.s) = "question" -> [x EXCEPT !.qs = Append(@, k.s.t)]
    [] OTHER -> x

(* step A: anticipations which are confirmed by the events of the window vanish, those which are due count as failed *)
Window == 2
Confirmed(x, a) == \E k \in 1..Len(x.tr) : k > Len(x.tr) - Window /\ x.tr[k].n = a.p
Due(x, a) == ~Confirmed(x, a) /\ a.d <= x.t
AntA(x) == SelectSeq(x.ant, LAMBDA a : ~Confirmed(x, a) /\ a.d > x.t)
Failures(x, id) == Cardinality({ k \in 1..Len(x.ant) : x.ant[k].b = id /\ Due(x, x.ant[k]) })
ProcA(x) == [k \in 1..Len(x.proc) |-> [x.proc[k] EXCEPT !.cnt = @ + Failures(x, x.proc[k].id)]]

(* sessions: all lines of a text, in order, each once; an interactive session repeats the last input for an empty line *)
RECURSIVE Session(_, _, _, _, _)
Session(s, ls, i, lst, inter) ==
  IF i > Len(ls) THEN [s |-> s, quit |-> FALSE, n |-> i - 1]
  ELSE LET c0 == IF ls[i].ok THEN TrimNl(ls[i].c) ELSE <<>>
           c == IF inter /\ ls[i].ok /\ c0 = <<>> THEN lst ELSE c0
           k == Kind(c)
           s2 == Det(s, k)
           s3 == IF k.k = "tell"
                 THEN CASE TellKind(k.s) = "judgement" -> [s2 EXCEPT !.belt = @ \cup {k.s.t}, !.nj = @ + 1]
                        [] TellKind(k.s) = "goal" -> [s2 EXCEPT !.glt = Append(@, k.s.t)]
                        [] TellKind(k.s) = "impl" -> [s2 EXCEPT !.implt = @ \cup {k.s.t}]
                        [] OTHER -> s2
                 ELSE s2
       IN IF k.k = "quit" THEN [s |-> s3, quit |-> TRUE, n |-> i]
          ELSE Session(s3, ls, i + 1, IF ls[i].ok /\ c0 # <<>> THEN c0 ELSE lst, inter)
Start0 == [cc |-> 0, ct |-> 0, t |-> 0, tr |-> <<>>, ops |-> <<>>, bab |-> FALSE, qs |-> <<>>, belt |-> {}, glt |-> <<>>, implt |-> {}, nj |-> 0]
----------------------------------------------------------------------------
(* operations of the library *)
OpOf(ops, n) == LET ks == { k \in 1..Len(ops) : ops[k].n = n } IN IF ks = {} THEN 0 ELSE CHOOSE k \in ks : \A m \in ks : k <= m
(* effect of calling operation n with args: [calls: sequence of (n, a) of the recording operations, evs: injected events] *)
NoEff == [calls |-> <<>>, evs |-> <<>>, told |-> <<>>]
Join2(a, b) == [calls |-> a.calls \o b.calls, evs |-> a.evs \o b.evs, told |-> a.told \o b.told]
RelTerm(r) ==
  IF IsStmtC(r, "inh") /\ IsC(r[3], "prod") /\ Len(r[3][2]) = 2
     /\ IsC(r[3][2][2], "seq") /\ Len(r[3][2][2][2]) = 3 /\ r[3][2][2][2][2] = <<"n", "and">>
  THEN Inh(<<"prod", <<r[3][2][1], <<"ei", <<r[3][2][2][2][1], r[3][2][2][2][3]>>>>>>>>, r[4])
  ELSE r
RECURSIVE CallOp(_, _, _, _)
RECURSIVE CallSeq(_, _, _, _)
CallOp(ops, k, args, mem) ==
  LET n == ops[k].n
  IN CASE ops[k].ty = "rec" -> [NoEff EXCEPT !.calls = <<[n |-> n, a |-> args]>>]
       [] ops[k].ty = "nop" -> NoEff
       [] ops[k].ty = "exe" -> IF Len(args) = 3 /\ IsC(args[2], "seq")
                               THEN Join2(CallSeq(ops, args[2][2], 1, mem), [NoEff EXCEPT !.evs = <<args[3]>>])
                               ELSE NoEff
       [] ops[k].ty = "rel" -> IF Len(args) = 2 /\ mem THEN [NoEff EXCEPT !.told = <<RelTerm(args[2])>>] ELSE NoEff
CallSeq(ops, ts, i, mem) ==
  IF i > Len(ts) THEN NoEff
  ELSE LET t == ts[i]
           k == IF IsOpTerm(t) THEN OpOf(ops, OpName(t)) ELSE 0
       IN Join2(IF k = 0 THEN NoEff ELSE CallOp(ops, k, OpArgs(t), mem), CallSeq(ops, ts, i + 1, mem))
=============================================================================
