------------------------------ MODULE MCReason ------------------------------
(* Design model of the whole declarative reasoner: telling, asking, reasoning *)
(* cycles and the asynchronous deriver which works through a channel, in any  *)
(* interleaving.  Attention is abstracted to a free choice of the primary.    *)
(* Behaviours are replayed into the implementation (mode cyclescript).        *)
EXTENDS NarDecl, Json
CONSTANTS Depth, MaxCx, Emit
VARIABLES bel, tasks, idx, qs, chan, sid, hist

Tv1 == [f |-> S, c |-> 9000]
Tv2 == [f |-> 2000, c |-> 5000]
Known0 == << [t |-> Inh(Nm("a"), Nm("b")), tv |-> Tv1, l |-> "<a --> b>. {1.0 0.9}"],
             [t |-> Inh(Nm("b"), Nm("c")), tv |-> Tv1, l |-> "<b --> c>. {1.0 0.9}"],
             [t |-> Inh(Nm("a"), Nm("b")), tv |-> Tv2, l |-> "<a --> b>. {0.2 0.5}"] >>
Asked0 == << [t |-> Inh(Nm("a"), Nm("c")), l |-> "<a --> c>?"],
             [t |-> Inh(<<"q","x">>, Nm("c")), l |-> "<?x --> c>?"] >>

(* adding a judgement: bel is a set of beliefs, at most one per statement *)
Add(st0, s) ==
  LET rev == { b \in st0.bel : Revisable(b, s) }
      new == IF rev # {} THEN { Revised(CHOOSE b \in rev : TRUE, s) } ELSE {}
      bel2 == IF rev # {} THEN (st0.bel \ rev) \cup new
              ELSE IF \E b \in st0.bel : b.t = s.t THEN st0.bel ELSE st0.bel \cup {s}
      has(x) == \E y \in st0.tasks : y.t = x.t /\ y.s = x.s
      add == IF has(s) THEN {} ELSE {s} \cup { x \in new : ~has(x) }
  IN IF Complexity(s.t) > MaxCx THEN st0
     ELSE [bel |-> bel2, tasks |-> st0.tasks \cup add, idx |-> st0.idx \cup add]
RECURSIVE AddAll(_, _)
AddAll(st0, ss) == IF ss = {} THEN st0 ELSE LET x == CHOOSE x \in ss : TRUE IN AddAll(Add(st0, x), ss \ {x})

Best(q, bs) == LET es == { ExpB(b) : b \in { y \in bs : Unifies(q.t, y.t) } } \cup {q.e}
               IN [q EXCEPT !.e = CHOOSE m \in es : \A x \in es : m >= x]

Mk(t, s, tv) == [t |-> t, s |-> s, f |-> tv.f, c |-> tv.c, lu |-> 0, uc |-> 0]
Concls(m) ==
  { Mk(x.t, m.p.s, x.tv) : x \in OnePremise(m.p.t, TvB(m.p)) }
  \cup UNION { IF Overlap(m.p.s, q.s) THEN {}
               ELSE { Mk(x.t, Merge(m.p.s, q.s), x.tv) : x \in TwoPremise(m.p.t, "J", TvB(m.p), q.t, "J", TvB(q)) }
             : q \in m.sec \cup { b \in bel : b.t = m.p.t } }

Init == bel = {} /\ tasks = {} /\ idx = {} /\ qs = <<>> /\ chan = <<>> /\ sid = 0 /\ hist = <<>>
Log(x) == /\ Len(hist) < Depth
          /\ hist' = Append(hist, x)
          /\ (Emit /\ Len(hist') = Depth) => PrintT("BEHAVIOUR " \o ToJson(hist'))
Tell == \E k \in 1..Len(Known0) :
          /\ sid < 4
          /\ LET r == Add([bel |-> bel, tasks |-> tasks, idx |-> idx], Mk(Known0[k].t, <<sid>>, Known0[k].tv))
             IN bel' = r.bel /\ tasks' = r.tasks /\ idx' = r.idx
          /\ sid' = sid + 1 /\ UNCHANGED <<qs, chan>>
          /\ Log([a |-> "tell", l |-> Known0[k].l])
Ask == \E k \in 1..Len(Asked0) :
          /\ Len(qs) < 2
          /\ qs' = Append(qs, [t |-> Asked0[k].t, e |-> 0]) /\ UNCHANGED <<bel, tasks, idx, chan, sid>>
          /\ Log([a |-> "ask", l |-> Asked0[k].l])
Cycle == /\ IF qs = <<>> THEN UNCHANGED qs
            ELSE \E k \in 1..Len(qs) :
                   qs' = [qs EXCEPT ![k] = Best(qs[k], { b \in bel : Subterms(b.t) \cap Subterms(qs[k].t) # {} })]
         /\ IF tasks = {} THEN UNCHANGED <<tasks, chan>>
            ELSE \E p \in tasks :
                   /\ tasks' = tasks \ {p}
                   /\ chan' = Append(chan, [p |-> p, sec |-> { x \in idx : Subterms(x.t) \cap Subterms(p.t) # {} }])
         /\ Len(chan') <= 2
         /\ UNCHANGED <<bel, idx, sid>>
         /\ Log([a |-> "cycle"])
Work == /\ chan # <<>>
        /\ LET cs == Concls(Head(chan))
               r == AddAll([bel |-> bel, tasks |-> tasks, idx |-> idx], { x \in cs : Complexity(x.t) <= MaxCx })
           IN /\ bel' = r.bel /\ tasks' = r.tasks /\ idx' = r.idx
              /\ qs' = [k \in 1..Len(qs) |-> Best(qs[k], cs)]
        /\ chan' = Tail(chan) /\ UNCHANGED sid
        /\ Log([a |-> "work"])
Next == Tell \/ Ask \/ Cycle \/ Work
vars == <<bel, tasks, idx, qs, chan, sid, hist>>
Spec == Init /\ [][Next]_vars
View == <<bel, tasks, idx, qs, chan, sid, Len(hist)>>

InvStamps == \A b \in bel \cup tasks \cup idx : NoDup(b.s) /\ Ids(b.s) \subseteq 0..(sid - 1) /\ b.s # <<>>
InvOne == \A x, y \in bel : x.t = y.t => x = y
InvTv == \A b \in bel \cup tasks : ValidTv(TvB(b)) /\ b.c < S
InvIdx == tasks \subseteq idx
(* nobody is more certain of a conclusion than of the told knowledge behind it allows: *)
(* confidence never exceeds that of all told evidence pooled                           *)
InvConf == \A b \in bel : b.c <= (sid * 9 * S) \div (sid * 9 + 1) + 5
(* answers only get better *)
QMono == [][\A k \in 1..Len(qs) : qs'[k].t = qs[k].t /\ qs'[k].e >= qs[k].e]_vars
SidMono == [][sid' >= sid]_vars
=============================================================================
