------------------------------- MODULE GenRat -------------------------------
(* Pairs of compile-time constants and an integer exponent: all small ones, or random ones of many digits. *)
EXTENDS Rational, Emit
CONSTANT Mode
VARIABLES cmd, sz
vars == <<cmd, sz>>
R(a, b) == RandomElement(a..b)
\* decimal digits of a small integer, with its sign first
RECURSIVE Nat10(_)
Nat10(k) == IF k < 10 THEN <<k>> ELSE Append(Nat10(k \div 10), k % 10)
Dec(k) == <<IF k < 0 THEN -1 ELSE IF k = 0 THEN 0 ELSE 1>> \o Nat10(IF k < 0 THEN -k ELSE k)
Small == { <<n, d>> \in (-4..4) \X (1..4) : d = 1 \/ (n # 0 /\ Canonical(Q(ZOf(Dec(n)), ZOf(Dec(d))))) }
\* 0..9 in front is not zero
RECURSIVE Digits(_)
Digits(k) == IF k = 0 THEN <<>> ELSE Append(Digits(k - 1), RandomElement(0..9))
Big(k) == <<RandomElement(1..9)>> \o Digits(k - 1)
\* the denominator may share factors with the numerator (written out of lowest terms)
ZInt(k) == <<RandomElement({-1, 1, 1})>> \o Big(k)
Den(k) == <<1>> \o Big(k)
Frac(k, x) == [n |-> ZInt(R(1, k)), d |-> IF x % 3 = 0 THEN <<1, 1>> ELSE Den(R(1, k))]
Init == sz = 0 /\ cmd = [op |-> "none"]
Next ==
  IF Mode = "small" THEN
     /\ sz = 0 /\ sz' = 1
     /\ \E a \in Small, b \in Small : cmd' = [op |-> "pair", a |-> [n |-> Dec(a[1]), d |-> Dec(a[2])], b |-> [n |-> Dec(b[1]), d |-> Dec(b[2])],
                                                 k |-> ((a[1] + 2 * b[1] + 3 * a[2] + b[2] + 40) % 9) - 3]
  ELSE IF Mode = "multiple" THEN
     \* the same or a nearby value written with larger numbers, on either side
     /\ sz = 0 /\ sz' = 1
     /\ \E a \in Small, m \in 2..4, near \in 0..1, swap \in BOOLEAN :
          LET x == [n |-> Dec(a[1]), d |-> Dec(a[2])] y == [n |-> Dec(m * a[1] + near), d |-> Dec(m * a[2])]
          IN cmd' = [op |-> "pair", a |-> IF swap THEN y ELSE x, b |-> IF swap THEN x ELSE y, k |-> ((a[1] + m + 40) % 5) - 2]
  ELSE /\ sz' = sz + 1
       /\ \E z \in {1, 2, 3} : cmd' = [op |-> "pair", a |-> Frac(IF z = 1 THEN 9 ELSE 3, R(1, 3)), b |-> Frac(IF z = 1 THEN 9 ELSE 3, R(1, 3)), k |-> IF z = 1 THEN R(-2, 2) ELSE R(-5, 5)]
Report == cmd.op # "none" => Emit(cmd)
=============================================================================
