------------------------------ MODULE NarTruth ------------------------------
(* NAL truth functions over fixed-point numbers.  A number x in [0,1] is the   *)
(* integer round(x*S), S = 10000.  TLC integers have 32 bits, so products are  *)
(* formed so that no intermediate result exceeds 2^31.                         *)
EXTENDS Integers

S == 10000
Abs(x) == IF x < 0 THEN -x ELSE x
Max2(a, b) == IF a >= b THEN a ELSE b
Min2(a, b) == IF a <= b THEN a ELSE b
Near(a, b, tol) == Abs(a - b) <= tol

Mul(a, b) == (a * b + S \div 2) \div S          \* rounded product
Or(a, b)  == S - Mul(S - a, S - b)

(* w2c for w in fixed point: w/(w+1) *)
W2C(w) == (w * S + (w + S) \div 2) \div (w + S)

Ded(a, b)  == [f |-> Mul(a.f, b.f), c |-> Mul(Mul(a.c, b.c), Mul(a.f, b.f))]
Neg(a)     == [f |-> S - a.f, c |-> a.c]
Abd(a, b)  == [f |-> a.f, c |-> W2C(Mul(b.f, Mul(a.c, b.c)))]
Ind(a, b)  == Abd(b, a)
Inter(a, b) == [f |-> Mul(a.f, b.f), c |-> Mul(a.c, b.c)]
(* Quotient p/q in fixed point for 0 <= p <= q <= 2*10^8, rounded down: long   *)
(* division, because p*S would not fit in 32 bits.                             *)
RECURSIVE LDiv(_, _, _, _)
LDiv(r, q, n, acc) == IF n = 0 THEN acc
                      ELSE LDiv((r * 10) % q, q, n - 1, acc * 10 + (r * 10) \div q)
Quot(p, q) == LDiv(p % q, q, 4, p \div q)
Comp(a, b) == LET o == S * S - (S - a.f) * (S - b.f)       \* or(fa,fb), scaled by S*S
              IN [f |-> IF o = 0 THEN 0 ELSE Quot(a.f * b.f, o),
                  c |-> W2C(Mul(Or(a.f, b.f), Mul(a.c, b.c)))]
DedGoalA(a, b) == Ded(a, b)
DedGoalB(a, b) == Neg(Ded(Neg(a), b))

(* Revision.  With w_i = c_i/(1-c_i):                                          *)
(*   f = (w1 f1 + w2 f2)/(w1+w2),  c = (w1+w2)/(w1+w2+1).                      *)
(* Multiplying by (1-c1)(1-c2): W1 = c1(1-c2), W2 = c2(1-c1),                  *)
(*   f = (W1 f1 + W2 f2)/(W1+W2),  c = (W1+W2)/(W1+W2+(1-c1)(1-c2)).           *)
EvW(c1, c2) == c1 * (S - c2)
RevC(a, b) == LET w == EvW(a.c, b.c) + EvW(b.c, a.c)
                  n == (S - a.c) * (S - b.c)
              IN IF w + n = 0 THEN S ELSE Quot(w, w + n)
RevF(a, b) == LET w1 == EvW(a.c, b.c)  w2 == EvW(b.c, a.c)
              IN IF w1 + w2 = 0 THEN 0
                 ELSE LET q == Quot(w1, w1 + w2)
                      IN (q * a.f + (S - q) * b.f) \div S
Rev(a, b) == [f |-> RevF(a, b), c |-> RevC(a, b)]

(* truth expectation c*(f-1/2)+1/2 *)
Exp(a) == (a.c * (2 * a.f - S) + S * S) \div (2 * S)

NearTv(x, y, tol) == Near(x.f, y.f, tol) /\ Near(x.c, y.c, tol)
ValidTv(x) == x.f >= 0 /\ x.f <= S /\ x.c >= 0 /\ x.c <= S

(* count-based evidence pos/cnt *)
CntF(e) == (e.pos * S + e.cnt \div 2) \div e.cnt
CntC(e) == (e.cnt * S + (e.cnt + 1) \div 2) \div (e.cnt + 1)
=============================================================================
