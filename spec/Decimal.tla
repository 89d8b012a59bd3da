------------------------------ MODULE Decimal -------------------------------
(* Exact reading of decimal numbers: the double denoted by digits D and decimal exponent k is the double *)
(* m*2^e nearest to D*10^k, ties to even m.  Natural numbers are little-endian sequences of limbs.       *)
EXTENDS Integers, Sequences

Base == 10000
RECURSIVE Carry(_, _, _)
\* a with limbs possibly >= Base, from limb i with carry c
Carry(a, i, c) ==
  IF i > Len(a) THEN (IF c = 0 THEN a ELSE Carry(Append(a, c), i, 0))
  ELSE LET t == a[i] + c IN Carry([a EXCEPT ![i] = t % Base], i + 1, t \div Base)
MulSmall(a, k) == LET s == [i \in 1..Len(a) |-> a[i] * k] IN Carry(s, 1, 0)    \* k <= 65536
AddSmall(a, k) == IF a = <<>> THEN (IF k = 0 THEN a ELSE Carry(<<k>>, 1, 0)) ELSE Carry([a EXCEPT ![1] = @ + k], 1, 0)
RECURSIVE Strip(_), CmpFrom(_, _, _), MulPow2(_, _), MulPow10(_, _)
Strip(a) == IF a # <<>> /\ a[Len(a)] = 0 THEN Strip(SubSeq(a, 1, Len(a) - 1)) ELSE a
CmpFrom(a, b, i) == IF i = 0 THEN 0 ELSE IF a[i] < b[i] THEN -1 ELSE IF a[i] > b[i] THEN 1 ELSE CmpFrom(a, b, i - 1)
Cmp(a0, b0) == LET a == Strip(a0) b == Strip(b0) IN
               IF Len(a) < Len(b) THEN -1 ELSE IF Len(a) > Len(b) THEN 1 ELSE CmpFrom(a, b, Len(a))
MulPow2(a, n) == IF n = 0 THEN a ELSE IF n >= 13 THEN MulPow2(MulSmall(a, 8192), n - 13) ELSE MulPow2(MulSmall(a, 2), n - 1)
MulPow10(a, n) == IF n = 0 THEN a ELSE IF n >= 4 THEN [i \in 1..(n \div 4) |-> 0] \o MulPow10(a, n % 4) ELSE MulPow10(MulSmall(a, 10), n - 1)

\* digits (most significant first) as a number
RECURSIVE FromDigits(_, _, _)
FromDigits(ds, i, acc) == IF i > Len(ds) THEN acc ELSE FromDigits(ds, i + 1, AddSmall(MulSmall(acc, 10), ds[i]))
\* mantissa hi*2^26 + lo
Mant(hi, lo) == LET h == MulPow2(AddSmall(<<>>, hi % 65536), 26)
                    h2 == MulPow2(AddSmall(<<>>, hi \div 65536), 42)
                    RECURSIVE Add(_, _, _, _)
                    Add(a, b, i, acc) == IF i > Len(a) /\ i > Len(b) THEN Carry(acc, 1, 0)
                                         ELSE Add(a, b, i + 1, Append(acc, (IF i > Len(a) THEN 0 ELSE a[i]) + (IF i > Len(b) THEN 0 ELSE b[i])))
                    l == AddSmall(MulSmall(AddSmall(<<>>, lo \div 1024), 1024), lo % 1024)
                IN Add(Add(h, h2, 1, <<>>), l, 1, <<>>)

\* sign of 4*D*10^k - (4*m + d)*2^e   for d in {-2, -1, 0, 2}
SignAt(D, k, m, d, e) ==
  LET m4 == IF d >= 0 THEN AddSmall(MulSmall(m, 4), d) ELSE MulSmall(m, 4)
      l0 == IF d < 0 THEN AddSmall(MulSmall(D, 4), 0) ELSE MulSmall(D, 4)
      l1 == IF k >= 0 THEN MulPow10(l0, k) ELSE l0
      l2 == IF e < 0 THEN MulPow2(l1, -e) ELSE l1
      r1 == IF k < 0 THEN MulPow10(m4, -k) ELSE m4
      r2 == IF e >= 0 THEN MulPow2(r1, e) ELSE r1
      \* a negative d moves to the left side: 4D 10^k + |d| 2^e  versus  4m 2^e
      x1 == IF d >= 0 THEN <<>> ELSE LET a == AddSmall(<<>>, -d) b == IF k < 0 THEN MulPow10(a, -k) ELSE a IN IF e >= 0 THEN MulPow2(b, e) ELSE b
      RECURSIVE Add2(_, _, _, _)
      Add2(a, b, i, acc) == IF i > Len(a) /\ i > Len(b) THEN Carry(acc, 1, 0)
                            ELSE Add2(a, b, i + 1, Append(acc, (IF i > Len(a) THEN 0 ELSE a[i]) + (IF i > Len(b) THEN 0 ELSE b[i])))
  IN Cmp(IF d >= 0 THEN l2 ELSE Add2(l2, x1, 1, <<>>), r2)

MinExp == -1074
Nearest(ds, k, hi, lo, e) ==
  LET D == Strip(FromDigits(ds, 1, <<>>))
      m == Mant(hi, lo)
      even == lo % 2 = 0
      pow2 == hi = 67108864 /\ lo = 0 /\ e > MinExp          \* 2^52: the gap below is half the gap above
      up == SignAt(D, k, m, 2, e)
      dn == SignAt(D, k, m, IF pow2 THEN -1 ELSE -2, e)
  IN IF hi = 0 /\ lo = 0 THEN SignAt(D, k, m, 2, MinExp) <= 0
     ELSE /\ up < 0 \/ (up = 0 /\ even)
          /\ dn > 0 \/ (dn = 0 /\ even)

ASSUME Nearest(<<1>>, -1, 107374182, 26843546, -56)           \* 0.1 = 0x1.999999999999ap-4
ASSUME ~Nearest(<<1>>, -1, 107374182, 26843545, -56)
=============================================================================
