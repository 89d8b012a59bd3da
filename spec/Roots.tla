------------------------------- MODULE Roots --------------------------------
(* Polynomials over the integers given by their roots: the product of (s*x - r) over the real roots r,   *)
(* of ((s*x - p)^2 + q^2) over the complex pairs, a leading factor, and zero coefficients above.         *)
EXTENDS Integers, Sequences, FiniteSets
Mx(a, b) == IF a > b THEN a ELSE b
Ab(a) == IF a < 0 THEN -a ELSE a
At(f, i) == IF i >= 1 /\ i <= Len(f) THEN f[i] ELSE 0
RECURSIVE SumP(_, _, _, _)
SumP(f, g, k, j) == IF j > k THEN 0 ELSE At(f, j) * At(g, k + 1 - j) + SumP(f, g, k, j + 1)
ZMul(f, g) == [k \in 1..(Len(f) + Len(g) - 1) |-> SumP(f, g, k, 1)] \o <<>>
RECURSIVE ByRoots(_, _, _)
ByRoots(s, R, i) == IF i > Len(R) THEN <<1>> ELSE ZMul(<<-R[i], s>>, ByRoots(s, R, i + 1))
RECURSIVE ByPairs(_, _, _)
ByPairs(s, C, i) == IF i > Len(C) THEN <<1>> ELSE ZMul(<<C[i][1] * C[i][1] + C[i][2] * C[i][2], -2 * s * C[i][1], s * s>>, ByPairs(s, C, i + 1))
Pad(n) == [i \in 1..n |-> 0]
PolyOf(s, R, C, lead, pad) == ZMul(<<lead>>, ZMul(ByRoots(s, R, 1), ByPairs(s, C, 1))) \o Pad(pad)
\* size of the largest number that can occur in the product (kept within the checker's integers)
RECURSIVE Size(_, _, _, _)
Size(s, R, C, i) == IF i <= Len(R) THEN (s + Ab(R[i])) * Size(s, R, C, i + 1)
                    ELSE IF i <= Len(R) + Len(C) THEN LET c == C[i - Len(R)] IN ((s + Ab(c[1])) * (s + Ab(c[1])) + c[2] * c[2]) * Size(s, R, C, i + 1)
                    ELSE 1
Sg(a) == IF a > 0 THEN 1 ELSE IF a < 0 THEN -1 ELSE 0
\* sign variations of a coefficient sequence, zeros ignored
RECURSIVE Vars(_, _, _)
Vars(f, i, last) == IF i > Len(f) THEN 0
                    ELSE IF f[i] = 0 THEN Vars(f, i + 1, last)
                    ELSE (IF last # 0 /\ last # Sg(f[i]) THEN 1 ELSE 0) + Vars(f, i + 1, Sg(f[i]))
Variations(f) == Vars(f, 1, 0)
RECURSIVE ZComp(_, _, _)
ZComp(f, g, i) == IF i > Len(f) THEN <<0>> ELSE LET h == ZMul(g, ZComp(f, g, i + 1)) IN <<h[1] + f[i]>> \o Tail(h)
ZShift(f, t) == SubSeq(ZComp(f, <<t, 1>>, 1), 1, Len(f))
ZRev(f) == [i \in 1..Len(f) |-> f[Len(f) + 1 - i]] \o <<>>
\* the polynomial for an interval: variations of (1+x)^n f((a + b x)/(1 + x))
Budan(f) == Variations(ZShift(ZRev(f), 1))
\* monic quadratic factors <<c, b>> (x^2 + b x + c): the complex pairs, neighbouring real roots, the outermost real roots
Factors(R, C) == LET moderate(q) == Ab(q[1]) <= 20000 /\ Ab(q[2]) <= 20000 IN SelectSeq(
                 [i \in 1..Len(C) |-> <<C[i][1] * C[i][1] + C[i][2] * C[i][2], -2 * C[i][1]>>]
                 \o [i \in 1..(Len(R) - 1) |-> <<R[i] * R[i + 1], -(R[i] + R[i + 1])>>]
                 \o (IF Len(R) > 2 THEN << <<R[1] * R[Len(R)], -(R[1] + R[Len(R)])>> >> ELSE <<>>), moderate)
RealIn(R, a, b) == Cardinality({ i \in 1..Len(R) : a < 2 * R[i] /\ 2 * R[i] <= b })    \* a, b in half units
Mult(R) == Cardinality({ i \in 1..Len(R) : R[i] > 0 })

(* Conditioning.  A root at distance d from another one, both of size m, moves about m/d times as much as *)
(* the coefficients; the product over the other roots bounds the amplification of rounding errors.        *)
CapMul(acc, num, den) == LET v == (acc * num) \div den IN IF v > 1000000 THEN 1000000 ELSE v
RECURSIVE CondReal(_, _, _, _, _)
CondReal(m, x, y, R, i) == IF i > Len(R) THEN m
  ELSE CondReal(CapMul(m, Ab(x) + y + Ab(R[i]), Mx(Mx(Ab(x - R[i]), y), 1)), x, y, R, i + 1)
RECURSIVE CondPair(_, _, _, _, _)
CondPair(m, x, y, C, i) == IF i > Len(C) THEN m
  ELSE LET n == Ab(x) + y + Ab(C[i][1]) + C[i][2] IN
       CondPair(CapMul(CapMul(m, n, Mx(Mx(Ab(x - C[i][1]), Ab(y - C[i][2])), 1)), n, Mx(Ab(x - C[i][1]), y + C[i][2])), x, y, C, i + 1)
Without(q, i) == SubSeq(q, 1, i - 1) \o SubSeq(q, i + 1, Len(q))
Amplification == 2000
\* 16 is one in the fixed-point arithmetic of the amplification
WellSeparated(R, C) ==
  /\ \A i \in 1..Len(R) : R[i] = 0 \/ CondPair(CondReal(16, R[i], 0, Without(R, i), 1), R[i], 0, C, 1) <= 16 * Amplification
  /\ \A i \in 1..Len(C) : CondPair(CondReal(CapMul(16, Ab(C[i][1]) + C[i][2], C[i][2]), C[i][1], C[i][2], R, 1), C[i][1], C[i][2], Without(C, i), 1) <= 16 * Amplification
=============================================================================
