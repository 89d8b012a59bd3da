------------------------------ MODULE Rational ------------------------------
(* Exact rationals of any size.  An integer is [s |-> -1/0/1, m |-> limbs]; a rational [n, d] of two      *)
(* integers, d > 0.  Nothing is normalised: equality is cross-multiplication.                           *)
EXTENDS Decimal, FiniteSets

RECURSIVE AddN(_, _, _, _), SubN(_, _, _, _, _), MulN(_, _, _, _), HalfN(_, _, _)
AddN(a, b, i, acc) == IF i > Len(a) /\ i > Len(b) THEN Strip(Carry(acc, 1, 0))
                      ELSE AddN(a, b, i + 1, Append(acc, (IF i > Len(a) THEN 0 ELSE a[i]) + (IF i > Len(b) THEN 0 ELSE b[i])))
\* a - b for a >= b
SubN(a, b, i, c, acc) == IF i > Len(a) THEN Strip(acc)
                         ELSE LET t == (a[i] - (IF i > Len(b) THEN 0 ELSE b[i])) - c
                              IN SubN(a, b, i + 1, IF t < 0 THEN 1 ELSE 0, Append(acc, IF t < 0 THEN t + Base ELSE t))
MulN(a, b, i, acc) == IF i > Len(b) THEN Strip(acc)
                      ELSE MulN(a, b, i + 1, AddN(acc, [j \in 1..(i - 1) |-> 0] \o MulSmall(a, b[i]), 1, <<>>))
HalfN(a, i, c) == IF i = 0 THEN Strip(a) ELSE LET t == c * Base + a[i] IN HalfN([a EXCEPT ![i] = t \div 2], i - 1, t % 2)
EvenN(a) == a = <<>> \/ a[1] % 2 = 0
Plus(a, b) == AddN(a, b, 1, <<>>)
Minus(a, b) == SubN(a, b, 1, 0, <<>>)
Times(a, b) == MulN(a, b, 1, <<>>)
One == <<1>>
RECURSIVE OddGcd(_, _)
\* is the greatest common divisor of a and b, not both even, equal to one (b odd)
OddGcd(a, b) == IF a = <<>> THEN b
                ELSE IF EvenN(a) THEN OddGcd(HalfN(a, Len(a), 0), b)
                ELSE IF Cmp(a, b) < 0 THEN OddGcd(Minus(b, a), a) ELSE OddGcd(Minus(a, b), b)
Coprime(a, b) == IF EvenN(a) /\ EvenN(b) THEN FALSE ELSE IF EvenN(b) THEN OddGcd(b, a) = One ELSE OddGcd(a, b) = One

Z(s, m) == [s |-> IF m = <<>> THEN 0 ELSE s, m |-> m]
ZNeg(a) == Z(-a.s, a.m)
ZMul(a, b) == Z(a.s * b.s, Times(a.m, b.m))
ZAdd(a, b) == IF a.s = 0 THEN b ELSE IF b.s = 0 THEN a
              ELSE IF a.s = b.s THEN Z(a.s, Plus(a.m, b.m))
              ELSE IF Cmp(a.m, b.m) >= 0 THEN Z(a.s, Minus(a.m, b.m)) ELSE Z(b.s, Minus(b.m, a.m))
ZCmp(a, b) == ZAdd(a, ZNeg(b)).s
Q(n, d) == IF d.s < 0 THEN [n |-> ZNeg(n), d |-> ZNeg(d)] ELSE [n |-> n, d |-> d]
QAdd(a, b) == Q(ZAdd(ZMul(a.n, b.d), ZMul(b.n, a.d)), ZMul(a.d, b.d))
QNeg(a) == Q(ZNeg(a.n), a.d)
QMul(a, b) == Q(ZMul(a.n, b.n), ZMul(a.d, b.d))
QInv(a) == Q(a.d, a.n)
QAbs(a) == IF a.n.s < 0 THEN QNeg(a) ELSE a
QCmp(a, b) == ZCmp(ZMul(a.n, b.d), ZMul(b.n, a.d))
QOne == Q(Z(1, One), Z(1, One))
RECURSIVE QPow(_, _)
QPow(a, k) == IF k = 0 THEN QOne ELSE IF k < 0 THEN QInv(QPow(a, -k)) ELSE QMul(a, QPow(a, k - 1))
\* lowest terms
Canonical(q) == q.d.s = 1 /\ IF q.n.s = 0 THEN q.d.m = One ELSE Coprime(q.n.m, q.d.m)

\* integers from their decimal digits <<sign, d1, d2, ...>>
ZOf(t) == Z(t[1], Strip(FromDigits(SubSeq(t, 2, Len(t)), 1, <<>>)))

\* (4*hi.. ) the double s * (hi*2^26 + lo) * 2^e is the one nearest to q
NearQ(q, hi, lo, e) ==
  LET m == Strip(Mant(hi, lo))
      up(a, k) == IF k > 0 THEN MulPow2(a, k) ELSE a
      n4 == up(MulSmall(q.n.m, 4), -e)
      side(k) == Cmp(n4, up(Times(IF k >= 0 THEN AddSmall(MulSmall(m, 4), k) ELSE Minus(MulSmall(m, 4), <<-k>>), q.d.m), e))
      pow2 == hi = 67108864 /\ lo = 0
      even == lo % 2 = 0
  IN IF q.n.s = 0 THEN m = <<>>
     ELSE LET u == side(2) d == side(IF pow2 THEN -1 ELSE -2)
          IN (u < 0 \/ (u = 0 /\ even)) /\ (d > 0 \/ (d = 0 /\ even))

ASSUME LET a == Q(ZOf(<<1, 1>>), ZOf(<<1, 3>>)) b == Q(ZOf(<<-1, 1, 2, 3, 4, 5, 6, 7, 8, 9>>), ZOf(<<1, 1, 0, 0, 0, 0, 0, 0, 7>>)) IN
       /\ QCmp(QAdd(QAdd(a, b), QNeg(b)), a) = 0 /\ QCmp(QMul(QMul(a, b), QInv(b)), a) = 0
       /\ Canonical(b) /\ ~Canonical(QMul(a, Q(ZOf(<<1, 6>>), ZOf(<<1, 1>>)))) /\ QCmp(b, a) = -1
       /\ QCmp(QPow(b, -2), QInv(QMul(b, b))) = 0
=============================================================================
