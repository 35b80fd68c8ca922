---------------------------- MODULE TraceVision ----------------------------
(* Validation of what the vision modules and the network helpers compute.     *)
EXTENDS NarVision, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, ps
W(b, why) == IF b THEN TRUE ELSE PrintT(<<"WHY", why>>) /\ FALSE
SameMap(r, m) == r.w = m.w /\ r.h = m.h /\ Len(r.a) = Len(m.a) /\ \A k \in 1..Len(m.a) : r.a[k] = m.a[k]
OkMap(e) ==
  LET m == e.m
  IN CASE e.k = "make"   -> SameMap(e.r, MapOf(e.h, e.w, LAMBDA y, x : 0))
       [] e.k = "read"   -> e.r = At(m, e.y, e.x)
       [] e.k = "write"  -> SameMap(e.r, Drawn(m, LAMBDA y, x : y = e.y /\ x = e.x, e.v))
       [] e.k = "crop"   -> SameMap(e.r, Crop(m, e.y, e.x, e.sy, e.sx))
       [] e.k = "box"    -> SameMap(e.r, Drawn(m, LAMBDA y, x : InBox(e.y, e.x, e.sy, e.sx, y, x), e.v))
       [] e.k = "circle" -> SameMap(e.r, Drawn(m, LAMBDA y, x : InCircle(e.y, e.x, e.rad, y, x), e.v))
       [] e.k = "line"   -> /\ e.r.w = m.w /\ e.r.h = m.h /\ Len(e.r.a) = Len(m.a)
                            /\ (e.y # e.by \/ e.x # e.bx) =>
                               \A y \in 0..(m.h - 1), x \in 0..(m.w - 1) :
                                 LET o == At(m, y, x)  n == At(e.r, y, x)
                                 IN n \in {o, e.v} /\ (SureLine(e.y, e.x, e.by, e.bx, y, x) => n = e.v) /\ (~OnLine(e.y, e.x, e.by, e.bx, y, x) => n = o)
       [] e.k = "sub"    -> SameMap(e.r, MapOf(m.h, m.w, LAMBDA y, x : At(m, y, x) - At(e.b, y, x)))
       [] e.k = "add"    -> SameMap(e.r, MapOf(m.h, m.w, LAMBDA y, x : At(m, y, x) + At(e.b, y, x)))
       [] e.k = "div"    -> e.r.w = m.w /\ e.r.h = m.h /\ Len(e.r.a) = Len(m.a) /\ \A k \in 1..Len(m.a) : Near(e.r.a[k] * e.v, m.a[k] * S, e.v)
       [] e.k = "dist"   -> e.r = VDot(m.a, m.a, Len(m.a))
       [] e.k = "clone"  -> SameMap(e.r, m)
       [] e.k = "convo"  -> SameMap(e.r, Convo(m, e.q))
       [] e.k = "convnb" -> SameMap(e.r, ConvoInner(m, e.q))
       [] OTHER -> FALSE
YTab == <<9051, 6713, 2031>>      \* exp(-g*g/(8*0.56*0.56)), g = 0.5, 1, 2
OkGabor(e) ==
  LET c == e.w \div 2
      K(m, i, j) == At(m, c + i, c + j)
      D == (1 - c)..(e.w - 1 - c)
      Sym == { d \in D : -d \in D }
  IN /\ W(\A m \in {e.r0, e.rpi, e.r90, e.any, e.anypi} : m.w = e.w /\ m.h = e.w /\ Len(m.a) = e.w * e.w /\ \A k \in 1..Len(m.a) : Abs(m.a[k]) <= S, "filter bounded")
     /\ W(K(e.r0, 0, 0) = S /\ K(e.r90, 0, 0) = S /\ K(e.any, 0, 0) = S /\ K(e.rpi, 0, 0) = -S, "filter center")
     /\ W(\A i \in Sym, j \in Sym : /\ Near(K(e.any, i, j), K(e.any, -i, -j), 1) /\ Near(K(e.r0, i, j), K(e.r0, -i, j), 1)
                                    /\ Near(K(e.r90, i, j), K(e.r0, j, i), 1), "filter symmetric")
     /\ W(\A k \in 1..Len(e.r0.a) : Near(e.r0.a[k], -e.rpi.a[k], 1) /\ Near(e.any.a[k], e.anypi.a[k], 1), "filter phase")
     /\ W((-e.k) \in D => Near(K(e.r0, 0, -e.k), -6713, 2) /\ Near(K(e.r0, -e.k, 0), YTab[e.g], 2), "filter values")
     /\ W((-e.k) \in D => Near(K(e.r45, -e.k, -e.k), -6713, 2) /\ (e.k \in D => Near(K(e.r45, -e.k, e.k), YTab[e.g], 2)), "filter values, rotated")
OkLimit(e) == e.r = SubSeq(e.a, 1, Min2(e.n, Len(e.a)))

G == 4
(* exp(-dist/2) *)
DecayTab == <<9990, 9980, 9960, 9920, 9841, 9685, 9380, 8799, 7742, 5993, 3592, 1290>>
RECURSIVE DecayR(_, _, _)
DecayR(x, k, acc) == IF x = 0 \/ k > 12 THEN acc ELSE DecayR(x \div 2, k + 1, IF x % 2 = 1 THEN Mul(acc, DecayTab[k]) ELSE acc)
OkSim(v, s, p) == LET x == (DistN(s, p) * 500) \div DistD(p, G) IN IF x >= 4095 THEN v >= 0 /\ v <= 180 ELSE Near(v, DecayR(x, 1, S), 40)
OkReal(e, m) ==
  /\ W(Len(e.sims) = Len(ps) /\ \A k \in 1..Len(ps) : OkSim(e.sims[k], e.s, ps[k]), "similarities")
  /\ IF e.add
     THEN /\ W(RealMatch(ps, e.s, G, m), "wrong match")
          /\ W(e.r = (IF m = 0 THEN Len(ps) ELSE m - 1), "returned number")
          /\ W(e.ps = RealLearned(ps, e.s, e.t, m), "learning")
     ELSE /\ W(RealMatch(ps, e.s, G, e.r + 1), "wrong match")
          /\ W(e.ps = ps, "changed without learning")
Tol == 80
OkTv(e, m) ==
  LET sim == [k \in 1..Len(ps) |-> TvSim(e.v, ps[k])]
      match(r) == IF r = 0 THEN \A k \in 1..Len(ps) : sim[k] < S \div 2 + Tol
                  ELSE r \in 1..Len(ps) /\ sim[r] > S \div 2 - Tol /\ \A k \in 1..Len(ps) : sim[r] + Tol >= sim[k]
      new == TvLearned(ps, e.v, e.t, m)
  IN /\ W(e.v = [k \in 1..Len(e.s) |-> Encoded(e.s[k], 8, e.nq, e.conf, Len(e.s[k]))], "encoding of the image")
     /\ W(Len(e.sims) = Len(ps) /\ \A k \in 1..Len(ps) : Near(e.sims[k], sim[k], Tol), "similarities")
     /\ IF e.add
        THEN /\ W(match(m), "wrong match")
             /\ W(e.r = (IF m = 0 THEN Len(ps) ELSE m - 1), "returned number")
             /\ W(Len(e.ps) = Len(new) /\ \A k \in 1..Len(new) :
                    /\ e.ps[k].lu = new[k].lu /\ Len(e.ps[k].ch) = Len(new[k].ch)
                    /\ (k # m => e.ps[k] = new[k])
                    /\ \A c \in 1..Len(new[k].ch) : Len(e.ps[k].ch[c]) = Len(new[k].ch[c]) /\ \A j \in 1..Len(new[k].ch[c]) : NearTv(e.ps[k].ch[c][j], new[k].ch[c][j], 4), "learning")
        ELSE /\ W(match(e.r + 1), "wrong match")
             /\ W(e.ps = ps, "changed without learning")
(* with learning, the number of prototypes tells whether there was a match *)
Match(e) == IF Len(e.ps) > Len(ps) THEN 0 ELSE e.r + 1

OkAd(e) ==
  LET a == e.a  b == e.b  r == e.r
  IN CASE e.k = "add" -> r = AdAdd(a, b)
       [] e.k = "sub" -> r = AdSub(a, b)
       [] e.k = "mul" -> r = AdMul(a, b)
       [] e.k = "div" -> Near(r[1] * b[1], a[1] * S, Abs(b[1])) /\ Near(r[2] * Sq(b[1]), (a[2] * b[1] - a[1] * b[2]) * S, Sq(b[1]))
       [] e.k = "exp" -> Near(r[1], ExpTab[a[1] + 4], 1) /\ Near(r[2], a[2] * ExpTab[a[1] + 4], Abs(a[2]) + 1)
       [] e.k = "relu" -> r = Relu(a)
       [] e.k = "sigmoid" -> LET s == SigTab[a[1] + 5] IN Near(r[1], s, 1) /\ Near(r[2], a[2] * Mul(s, S - s), 2 * Abs(a[2]) + 1)
       [] OTHER -> FALSE
OkNeuron(e) ==
  LET d == AdDot(e.v, e.w, Len(e.v))
      x == AdAdd(d, e.b)
  IN /\ W(e.dot = d, "dot product")
     /\ IF e.act = 0 THEN e.r = <<Relu(x)[1] * S, Relu(x)[2] * S>>
        ELSE LET s == SigTab[x[1] + 5] IN Near(e.r[1], s, 1) /\ Near(e.r[2], x[2] * Mul(s, S - s), 2 * Abs(x[2]) + 1)
OkNet(e) ==
  LET D(i) == IF i = e.di THEN 1 ELSE 0
      layer(q, base, nin, n, boost, act) ==
        /\ Len(q) = n
        /\ \A k \in 1..n : LET o == base + (k - 1) * (nin + 1)
                           IN /\ Len(q[k].w) = nin
                              /\ \A j \in 1..nin : q[k].w[j] = <<e.p[o + j], D(o + j - 1)>>
                              /\ q[k].b = <<boost * e.p[o + nin + 1], D(o + nin)>> /\ q[k].act = act
      b1 == e.off + e.n0 * (e.ni + 1)
  IN /\ W(layer(e.l0, e.off, e.ni, e.n0, 15, e.act0), "first layer") /\ W(layer(e.l1, b1, e.n0, e.n1, 8, 1), "second layer")
     /\ W(e.end = b1 + e.n1 * (e.n0 + 1), "parameters used")
OkVec(e) ==
  LET n == Len(e.v)  dot == VDot(e.v, e.w, n)  A == VDot(e.v, e.v, n)  B == VDot(e.w, e.w, n)
  IN /\ W(e.add = [k \in 1..n |-> e.v[k] + e.w[k]] /\ e.as = [k \in 1..n |-> e.v[k] + e.s * e.w[k]] /\ e.sc = [k \in 1..n |-> e.s * e.v[k]], "vector sum")
     /\ W(e.dot = dot, "dot product")
     /\ W(\* len*len = A
          LET q == e.len \div 100 IN Near(q * q, A * 10000, 2 * q + 2), "length")
     /\ W(e.nz => /\ (dot > 0 => e.cos > 0) /\ (dot < 0 => e.cos < 0) /\ (dot = 0 => e.cos = 0)
                  /\ Near(Mul(e.cos, e.cos), Quot(dot * dot, A * B), 5), "cosine")
Ok(e) ==
  CASE e.op = "map" -> W(OkMap(e), e.k) /\ UNCHANGED ps
    [] e.op = "gabor" -> OkGabor(e) /\ UNCHANGED ps
    [] e.op = "limit" -> OkLimit(e) /\ UNCHANGED ps
    [] e.op = "start" -> ps' = <<>>
    [] e.op = "real" -> OkReal(e, Match(e)) /\ ps' = e.ps
    [] e.op = "tv" -> OkTv(e, Match(e)) /\ ps' = e.ps
    [] e.op = "ad" -> W(OkAd(e), e.k) /\ UNCHANGED ps
    [] e.op = "neuron" -> W(OkNeuron(e), "neuron") /\ UNCHANGED ps
    [] e.op = "net" -> OkNet(e) /\ UNCHANGED ps
    [] e.op = "vec" -> OkVec(e) /\ UNCHANGED ps
    [] OTHER -> FALSE
Init == l = 0 /\ ps = <<>> /\ TLCSet(17, 0)
Next == l < Len(Trace) /\ Ok(Trace[l + 1]) /\ l' = l + 1 /\ TLCSet(17, l')
Spec == Init /\ [][Next]_<<l, ps>>
Accepted == IF TLCGet(17) = Len(Trace) THEN TRUE ELSE PrintT(<<"REJECTED", TLCGet(17) + 1>>) /\ FALSE
=============================================================================
