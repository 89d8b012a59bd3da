------------------------------ MODULE Geometry ------------------------------
(* The measures of boxes, balls and points and the indicator functions of pairs of objects.  Coordinates    *)
(* are whole numbers of quarters, the parameter of a moving object a whole number of halves.                 *)
EXTENDS Rational

RECURSIVE Prod(_, _, _), Sum(_, _)
Prod(s, skip, i) == IF i > Len(s) THEN 1 ELSE (IF i = skip THEN 1 ELSE s[i]) * Prod(s, skip, i + 1)
Sum(s, i) == IF i > Len(s) THEN 0 ELSE s[i] + Sum(s, i + 1)
VSub(a, b) == [i \in 1..Len(a) |-> a[i] - b[i]] \o <<>>
VAdd(a, b) == [i \in 1..Len(a) |-> a[i] + b[i]] \o <<>>
VNeg(a) == [i \in 1..Len(a) |-> -a[i]] \o <<>>
Scale(k, a) == [i \in 1..Len(a) |-> k * a[i]] \o <<>>
Dot(a, b) == Sum([i \in 1..Len(a) |-> a[i] * b[i]], 1)

\* boxes, in units of quarters to the power of the dimension (or one less)
BoxVolume(mx, mn) == Prod(VSub(mx, mn), 0, 1)
BoxArea(mx, mn) == 2 * Sum([i \in 1..Len(mx) |-> Prod(VSub(mx, mn), i, 1)], 1)

\* the relative displacement of object i from object j, in eighths
Rel(ci, cj, dl) == VAdd(Scale(2, VSub(ci, cj)), dl)
\* pairs of objects: [k |-> "ball", c, r], [k |-> "point", c], [k |-> "half", c, n (unit, along an axis)]
\* in units of 1/64, of 1/8 against a half-space
Indicator(a, b, dl) ==
  LET d == Rel(a.c, b.c, dl)
      rad(o) == IF o.k = "ball" THEN 2 * o.r ELSE 0
  IN CASE b.k = "half" -> Dot(b.n, d) - rad(a)
       [] a.k = "half" -> Dot(a.n, VNeg(d)) - rad(b)
       [] OTHER -> Dot(d, d) - (rad(a) + rad(b)) * (rad(a) + rad(b))
\* the displacement of a command: none, a vector, or a line in a parameter (v + t w, t in halves)
Displacement(q) == CASE q.dk = "null" -> [i \in 1..Len(q.a.c) |-> 0] \o <<>>
                     [] q.dk = "vec" -> Scale(2, q.v)
                     [] q.dk = "line" -> VAdd(Scale(2, q.v), Scale(q.t, q.w))

\* balls: the volume is pi^(D div 2) times a rational; pi to 20 digits
Pi == Q(ZOf(<<1, 3,1,4,1,5,9,2,6,5,3,5,8,9,7,9,3,2,3,8,4,6>>), ZOf(<<1, 1>> \o [i \in 1..20 |-> 0]))
RECURSIVE UnitFactor(_), DigitsOf(_)
DigitsOf(n) == IF n < 10 THEN <<n>> ELSE Append(DigitsOf(n \div 10), n % 10)
QInt(n) == Q(ZOf(<<IF n = 0 THEN 0 ELSE 1>> \o DigitsOf(n)), Z(1, One))
UnitFactor(D) == IF D = 0 THEN QOne ELSE IF D = 1 THEN QInt(2) ELSE QMul(QMul(QInt(2), QInv(QInt(D))), UnitFactor(D - 2))
Radius(r) == QMul(QInt(r), QInv(QInt(4)))
UnitVolume == [i \in 1..11 |-> QMul(UnitFactor(i - 1), QPow(Pi, (i - 1) \div 2))] \o <<>>
BallVolume(D, r) == QMul(UnitVolume[D + 1], QPow(Radius(r), D))
\* the derivative of the volume with respect to the radius
BallArea(D, r) == IF D = 0 THEN Q(Z(0, <<>>), Z(1, One)) ELSE QMul(QMul(QInt(D), UnitVolume[D + 1]), QPow(Radius(r), D - 1))

\* the double s * (hi * 2^26 + lo) * 2^e as a rational
OfDouble(b) == LET m == Z(b.s, Strip(Mant(b.hi, b.lo))) IN
               IF b.s = 0 THEN Q(Z(0, <<>>), Z(1, One)) ELSE IF b.x >= 0 THEN Q(Z(b.s, MulPow2(m.m, b.x)), Z(1, One)) ELSE Q(m, Z(1, MulPow2(One, -b.x)))
\* |x - q| * 10^k <= q
Near(x, q, k) == QCmp(QMul(QAbs(QAdd(x, QNeg(q))), Q(ZOf(<<1, 1>> \o [i \in 1..k |-> 0]), Z(1, One))), QAbs(q)) <= 0

ASSUME /\ BoxVolume(<<4, 8, 12>>, <<0, 0, 4>>) = 256 /\ BoxArea(<<1, 2, 3>>, <<0, 0, 0>>) = 22 /\ BoxArea(<<5, 7>>, <<1, 1>>) = 20 /\ BoxArea(<<5>>, <<1>>) = 2
       /\ QCmp(BallVolume(3, 4), QMul(QMul(QInt(4), QInv(QInt(3))), Pi)) = 0 /\ QCmp(BallArea(3, 8), QMul(QInt(16), Pi)) = 0 /\ QCmp(BallArea(1, 0), QInt(2)) = 0
       /\ QCmp(BallArea(2, 4), QMul(QInt(2), Pi)) = 0
\* the indicator does not depend on the order of the objects nor on a common translation, and tells contact
ASSUME \A a \in {-4, 0, 3}, b \in {-1, 2}, s \in {-2, 0, 5}, dl \in {-3, 0, 2} :
         LET A == [k |-> "ball", c |-> <<a, 1>>, r |-> 3] B == [k |-> "ball", c |-> <<b, s>>, r |-> 1] P == [k |-> "point", c |-> <<b, s>>] H == [k |-> "half", c |-> <<b, s>>, n |-> <<0, -1>>]
             mv(o) == [o EXCEPT !.c = VAdd(@, <<7, -2>>)]
             dv == <<dl, 1>>
         IN \A y \in {B, P, H} : /\ Indicator(A, y, dv) = Indicator(y, A, VNeg(dv))
                                 /\ Indicator(mv(A), mv(y), dv) = Indicator(A, y, dv)
                                 /\ Indicator(A, y, Scale(2, dv)) = Indicator([A EXCEPT !.c = VAdd(@, dv)], y, <<0, 0>>)
=============================================================================
