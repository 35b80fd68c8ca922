----------------------------- MODULE NarVision -----------------------------
(* Vision: image maps, filters, and classifiers which learn prototypes; and   *)
(* numerical helpers for networks (dual numbers).  Maps are [w, h, a], a the  *)
(* row-major sequence of the cells.                                           *)
EXTENDS NarTruth, Sequences, FiniteSets

In(m, y, x) == y >= 0 /\ x >= 0 /\ x < m.w /\ y < m.h
At(m, y, x) == IF In(m, y, x) THEN m.a[y * m.w + x + 1] ELSE 0
MapOf(h, w, V(_, _)) == [w |-> w, h |-> h, a |-> [k \in 1..(w * h) |-> V((k - 1) \div w, (k - 1) % w)]]
(* the cells in the region C get the value v, all others are kept *)
Drawn(m, C(_, _), v) == MapOf(m.h, m.w, LAMBDA y, x : IF C(y, x) THEN v ELSE At(m, y, x))
Crop(m, y, x, sy, sx) == MapOf(sy, sx, LAMBDA i, j : At(m, y + i, x + j))
InBox(cy, cx, sy, sx, y, x) == y >= cy /\ y < cy + sy /\ x >= cx /\ x < cx + sx
InCircle(cy, cx, r, y, x) == (y - cy) * (y - cy) + (x - cx) * (x - cx) <= r * r
(* line from (ay,ax) to (by,bx): cells whose foot is on the segment and whose *)
(* distance is at most 1.5; cells exactly at the limit may belong to it       *)
LDot(ay, ax, by, bx, y, x) == (x - ax) * (bx - ax) + (y - ay) * (by - ay)
LCross(ay, ax, by, bx, y, x) == (x - ax) * (by - ay) - (y - ay) * (bx - ax)
LLen2(ay, ax, by, bx) == (bx - ax) * (bx - ax) + (by - ay) * (by - ay)
Sq(x) == x * x
OnLine(ay, ax, by, bx, y, x)   == LET d == LDot(ay, ax, by, bx, y, x)  q == LLen2(ay, ax, by, bx)
                                  IN d >= 0 /\ d <= q /\ 4 * Sq(LCross(ay, ax, by, bx, y, x)) <= 9 * q
SureLine(ay, ax, by, bx, y, x) == LET d == LDot(ay, ax, by, bx, y, x)  q == LLen2(ay, ax, by, bx)
                                  IN (d > 0 \/ (y = ay /\ x = ax)) /\ d < q /\ 4 * Sq(LCross(ay, ax, by, bx, y, x)) < 9 * q
RECURSIVE Sum(_, _)
Sum(f, n) == IF n = 0 THEN 0 ELSE f[n] + Sum(f, n - 1)
ConvAt(m, q, y, x) == LET f == [k \in 1..(q.w * q.h) |-> q.a[k] * At(m, y + ((k - 1) \div q.w) - q.h \div 2, x + ((k - 1) % q.w) - q.w \div 2)] IN Sum(f, q.w * q.h)
Convo(m, q) == MapOf(m.h, m.w, LAMBDA y, x : ConvAt(m, q, y, x))
Inner(m, q, y, x) == y > q.h \div 2 /\ y < m.h - q.h \div 2 - 1 /\ x > q.w \div 2 /\ x < m.w - q.w \div 2 - 1
ConvoInner(m, q) == MapOf(m.h, m.w, LAMBDA y, x : IF Inner(m, q, y, x) THEN ConvAt(m, q, y, x) ELSE 0)

----------------------------------------------------------------------------
(* Prototypes of real vectors: [ch, n, lu], ch the sums of the n stimuli per  *)
(* channel, in units of 1/g.  Distance of a stimulus s: sum of squares of the *)
(* differences to the mean, a fraction DistN/DistD.                           *)
RECURSIVE SqSum(_, _, _, _)
SqSum(s, c, n, k) == IF k = 0 THEN 0 ELSE Sq(s[k] * n - c[k]) + SqSum(s, c, n, k - 1)
RECURSIVE DistR(_, _, _)
DistR(s, p, k) == IF k = 0 THEN 0 ELSE SqSum(s[k], p.ch[k], p.n, Len(s[k])) + DistR(s, p, k - 1)
DistN(s, p) == DistR(s, p, Len(s))
DistD(p, g) == Sq(p.n * g)
(* similarity exp(-dist/2) >= 1/2 *)
Surely(s, p, g) == DistN(s, p) * 1000 <= 1386 * DistD(p, g)
Maybe(s, p, g)  == DistN(s, p) * 1000 <  1387 * DistD(p, g)
NotFarther(s, p, q) == DistN(s, p) * Sq(q.n) <= DistN(s, q) * Sq(p.n)
(* r = 0: no match, otherwise the number of the prototype *)
RealMatch(ps, s, g, r) ==
  IF r = 0 THEN \A k \in 1..Len(ps) : ~Surely(s, ps[k], g)
  ELSE r \in 1..Len(ps) /\ Maybe(s, ps[r], g) /\ \A k \in 1..Len(ps) : NotFarther(s, ps[r], ps[k])
AddCh(c, s) == [k \in 1..Len(c) |-> [j \in 1..Len(c[k]) |-> c[k][j] + s[k][j]]]
RealLearned(ps, s, t, m) ==      \* m: the match
  IF m = 0 THEN Append(ps, [ch |-> s, n |-> 1, lu |-> t])
  ELSE [ps EXCEPT ![m] = [ch |-> AddCh(ps[m].ch, s), n |-> ps[m].n + 1, lu |-> t]]

(* Prototypes of truth values: similarity is the expectation of the pooled    *)
(* comparison of all components.                                              *)
RECURSIVE PoolR(_, _, _, _)
PoolR(s, c, k, acc) == IF k = 0 THEN acc
  ELSE LET w == Mul(s[k].c, c[k].c)
       IN PoolR(s, c, k - 1, <<acc[1] + Mul(Mul(s[k].f, c[k].f), w), acc[2] + Mul(Or(s[k].f, c[k].f), w)>>)
RECURSIVE Pool(_, _, _, _)
Pool(s, c, k, acc) == IF k = 0 THEN acc ELSE Pool(s, c, k - 1, PoolR(s[k], c[k], Len(s[k]), acc))
TvSim(s, p) == LET a == Pool(s, p.ch, Len(s), <<0, 0>>)
                   d == 2 * a[1] - a[2]
                   q == Quot(Abs(d), 2 * (a[2] + S))
               IN S \div 2 + (IF d < 0 THEN -q ELSE q)
OneHot(v, g, n, conf) == [k \in 1..n |-> [f |-> IF k - 1 = (v * (n - 1)) \div g THEN S ELSE 0, c |-> conf]]
RECURSIVE Encoded(_, _, _, _, _)
Encoded(s, g, n, conf, k) == IF k = 0 THEN <<>> ELSE Encoded(s, g, n, conf, k - 1) \o OneHot(s[k], g, n, conf)
RevCh(c, s) == [k \in 1..Len(c) |-> [j \in 1..Len(c[k]) |-> Rev(c[k][j], s[k][j])]]
TvLearned(ps, s, t, m) ==
  IF m = 0 THEN Append(ps, [ch |-> s, lu |-> t])
  ELSE [ps EXCEPT ![m] = [ch |-> RevCh(ps[m].ch, s), lu |-> t]]

----------------------------------------------------------------------------
(* dual numbers <<value, derivative>> *)
AdAdd(a, b) == <<a[1] + b[1], a[2] + b[2]>>
AdSub(a, b) == <<a[1] - b[1], a[2] - b[2]>>
AdMul(a, b) == <<a[1] * b[1], a[1] * b[2] + a[2] * b[1]>>
RECURSIVE AdDot(_, _, _)
AdDot(v, w, k) == IF k = 0 THEN <<0, 0>> ELSE AdAdd(AdMul(v[k], w[k]), AdDot(v, w, k - 1))
Relu(a) == IF a[1] > 0 THEN a ELSE <<0, 0>>
ExpTab == <<498, 1353, 3679, 10000, 27183, 73891, 200855>>                   \* exp(-3..3)
SigTab == <<180, 474, 1192, 2689, 5000, 7311, 8808, 9526, 9820>>             \* -4..4
RECURSIVE VDot(_, _, _)
VDot(v, w, k) == IF k = 0 THEN 0 ELSE v[k] * w[k] + VDot(v, w, k - 1)
=============================================================================
