------------------------------- MODULE Field -------------------------------
(* Exact arithmetic in the prime field GF(P): the value domain in which the specification evaluates    *)
(* expressions.  Every finite double is a dyadic rational and so has an exact residue; an identity of  *)
(* expressions that holds over the rationals holds in GF(P) wherever both sides are defined.  Functions *)
(* without algebraic identities (sin, exp, ...) are uninterpreted: fixed pseudo-random functions of the *)
(* residue that satisfy exactly the special values the library may use (sin 0, cos 0, exp 0, ln 1).     *)
EXTENDS Integers, Sequences, FiniteSets, TLC

P == 10007
Bot == -1                                   \* "undefined" (division by zero, ln 0, ...)

RECURSIVE PowN(_, _)
PowN(b, n) == IF n = 0 THEN 1
              ELSE LET h == PowN((b * b) % P, n \div 2) IN IF n % 2 = 1 THEN (h * b) % P ELSE h

InvTab == TLCEval([a \in 1..(P - 1) |-> PowN(a, P - 2)])
Inv(a) == IF a <= 0 THEN Bot ELSE InvTab[a]

FAdd(a, b) == IF a < 0 \/ b < 0 THEN Bot ELSE (a + b) % P
FSub(a, b) == IF a < 0 \/ b < 0 THEN Bot ELSE (a - b) % P
FMul(a, b) == IF a < 0 \/ b < 0 THEN Bot ELSE (a * b) % P
FDiv(a, b) == IF a < 0 \/ b <= 0 THEN Bot ELSE (a * InvTab[b]) % P
FNeg(a)    == IF a < 0 THEN Bot ELSE (P - a) % P
FRat(n, d) == FDiv(n % P, d % P)            \* residue of the rational n/d

\* fixed pseudo-random functions of one or two residues
M(a, b) == (a * b) % P
H1(t, m) == (M(M((m + 131 * t) % P, (m + 17 * t + 3) % P), (m + 5 + t) % P) + 977 * t) % P
H2(t, m, n) == (H1(t, m) * 3 + ((n + 7) % P) * ((m + 11 * t) % P) + H1(t + 1, n)) % P

SmallLim == 200
IsSmall(m) == m >= 0 /\ (m <= SmallLim \/ m >= P - SmallLim)
SmallInt(m) == IF m <= SmallLim THEN m ELSE m - P

Dyadics(sgn) == { FRat(sgn * n, d) : n \in 1..40, d \in {1, 2, 4} }
PosTab == TLCEval(Dyadics(1))
NegTab == TLCEval(Dyadics(-1))
ASSUME PosTab \cap NegTab = {}

FAbs(m) == IF m < 0 THEN Bot ELSE IF m = 0 \/ m \in PosTab THEN m ELSE IF m \in NegTab THEN P - m ELSE H1(6, m)
FSin(m) == IF m < 0 THEN Bot ELSE IF m = 0 THEN 0 ELSE H1(1, m)
FCos(m) == IF m < 0 THEN Bot ELSE IF m = 0 THEN 1 ELSE H1(2, m)
FExp(m) == IF m < 0 THEN Bot ELSE IF m = 0 THEN 1 ELSE H1(3, m)
FLn(m)  == IF m <= 0 THEN Bot ELSE IF m = 1 THEN 0 ELSE H1(4, m)
FPow(a, b) == IF a < 0 \/ b < 0 THEN Bot
              ELSE IF IsSmall(b)
                   THEN LET n == SmallInt(b) IN
                        IF n >= 0 THEN PowN(a, n) ELSE IF a = 0 THEN Bot ELSE PowN(InvTab[a], -n)
                   ELSE IF a = 1 THEN 1 ELSE IF a = 0 THEN Bot ELSE H2(8, a, b)
FUnc(a, b) == IF a < 0 \/ b < 0 THEN Bot ELSE IF b = 0 THEN a ELSE H2(10, a, b)
FIdx(a, b) == IF a < 0 \/ b < 0 THEN Bot ELSE H2(12, a, b)
=============================================================================
