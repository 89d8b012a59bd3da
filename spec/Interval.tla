------------------------------ MODULE Interval ------------------------------
(* Evaluation of one-variable expressions on intervals, in exact rational arithmetic.                    *)
(*  Value(e, q)    the value and derivative <<v, d>> of e at the point q, or Undef                        *)
(*  Range(e, iv)   the natural interval extension <<lo, hi>> of e on iv = <<lo, hi>>, or Undef; it is the *)
(*                 range of e when the variable occurs once                                              *)
(* Powers have constant exponents; a fractional exponent may only be outermost, and is compared by       *)
(* raising to the denominator.                                                                            *)
EXTENDS Rational

Undef == <<>>
ZI(k) == Z(IF k < 0 THEN -1 ELSE IF k = 0 THEN 0 ELSE 1, AddSmall(<<>>, IF k < 0 THEN -k ELSE k))
QI(n, d) == Q(ZI(n), ZI(d))
QZero == QI(0, 1)
Pow2(k) == IF k >= 0 THEN Q(Z(1, MulPow2(One, k)), Z(1, One)) ELSE Q(Z(1, One), Z(1, MulPow2(One, -k)))
QSub(a, b) == QAdd(a, QNeg(b))
QDiv(a, b) == QMul(a, QInv(b))
QLe(a, b) == QCmp(a, b) <= 0
QMin(a, b) == IF QLe(a, b) THEN a ELSE b
QMax(a, b) == IF QLe(a, b) THEN b ELSE a
IsZero(a) == a.n.s = 0
Neg(a) == a.n.s < 0

\* The intervals: <<lower, upper, exponent of two>>
Ivs == << <<-8, 16, -3>>, <<0, 8, -3>>, <<4, 24, -3>>, <<-24, -2, -3>>, <<2, 2, 0>>, <<0, 0, 0>>, <<-10, 10, -3>>, <<1, 1024, 0>>,
          <<-3, -3, -1>>, <<-16, 0, -3>>, <<5, 7, -2>>, <<1, 1048576, -10>>, <<-1048576, 1048575, 20>>, <<1, 3, -40>> >>
LoOf(i) == QMul(QI(Ivs[i][1], 1), Pow2(Ivs[i][3]))
HiOf(i) == QMul(QI(Ivs[i][2], 1), Pow2(Ivs[i][3]))
Moderate(i) == i <= 11
\* points of the interval: the ends and some between
Points(i) == LET a == LoOf(i) b == HiOf(i) at(k) == QAdd(a, QMul(QSub(b, a), QI(k, 8))) IN { at(k) : k \in {0, 1, 3, 4, 6, 8} } \cup (IF QLe(a, QZero) /\ QLe(QZero, b) THEN {QZero} ELSE {})

Val(v, d) == <<v, d>>
\* derivatives, which do not exist where an absolute value is taken of zero
NoD == [z |-> 0]
D1(F(_), a) == IF a = NoD THEN NoD ELSE F(a)
D2(F(_, _), a, b) == IF a = NoD \/ b = NoD THEN NoD ELSE F(a, b)
RECURSIVE Value(_, _), Pw(_, _)
Pw(a, k) == IF k = 0 THEN QOne ELSE IF IsZero(a) THEN QZero ELSE QPow(a, k)          \* a # 0 or k >= 0
Value(e, q) ==
  CASE e.k = "c" -> Val(QI(e.n, e.d), QZero)
    [] e.k = "v" -> Val(q, QOne)
    [] e.k = "u" -> LET a == Value(e.a, q) IN
                    IF a = Undef THEN Undef
                    ELSE IF e.o = "neg" THEN Val(QNeg(a[1]), D1(QNeg, a[2]))
                    ELSE IF IsZero(a[1]) THEN Val(QZero, NoD) ELSE Val(QAbs(a[1]), IF Neg(a[1]) THEN D1(QNeg, a[2]) ELSE a[2])
    [] e.k = "b" /\ e.o = "^" ->
         LET a == Value(e.l, q) n == e.r.n IN
         IF a = Undef \/ (IsZero(a[1]) /\ n < 1) THEN Undef
         ELSE Val(Pw(a[1], n), IF IsZero(a[1]) /\ n = 1 THEN NoD         \* the derivative is written with a power 0, and 0^0 is refused
                               ELSE D2(QMul, QMul(QI(n, 1), Pw(a[1], n - 1)), a[2]))
    [] e.k = "b" ->
         LET a == Value(e.l, q) b == Value(e.r, q) IN
         IF a = Undef \/ b = Undef THEN Undef
         ELSE CASE e.o = "+" -> Val(QAdd(a[1], b[1]), D2(QAdd, a[2], b[2]))
                [] e.o = "-" -> Val(QSub(a[1], b[1]), D2(QSub, a[2], b[2]))
                [] e.o = "*" -> Val(QMul(a[1], b[1]), D2(QAdd, D2(QMul, a[2], b[1]), D2(QMul, a[1], b[2])))
                [] e.o = "/" -> IF IsZero(b[1]) THEN Undef
                                ELSE LET r == QDiv(a[1], b[1]) IN Val(r, D2(QDiv, D2(QSub, a[2], D2(QMul, r, b[2])), b[1]))

RECURSIVE Count(_), HasAbs(_), Range(_, _), Depth(_, _)
Count(e) == CASE e.k = "v" -> 1 [] e.k = "c" -> 0 [] e.k = "u" -> Count(e.a) [] OTHER -> Count(e.l) + Count(e.r)
HasAbs(e) == CASE e.k = "u" -> e.o = "abs" \/ HasAbs(e.a) [] e.k = "b" -> HasAbs(e.l) \/ HasAbs(e.r) [] OTHER -> FALSE
Fractional(e) == e.k = "b" /\ e.o = "^" /\ e.r.d # 1

Hull(s) == LET lo == CHOOSE x \in s : \A y \in s : QLe(x, y) hi == CHOOSE x \in s : \A y \in s : QLe(y, x) IN <<lo, hi>>
Over0(a) == QLe(a[1], QZero) /\ QLe(QZero, a[2])
RMul(a, b) == Hull({QMul(a[1], b[1]), QMul(a[1], b[2]), QMul(a[2], b[1]), QMul(a[2], b[2])})
RInv(a) == <<QInv(a[2]), QInv(a[1])>>
RAbs(a) == LET h == Hull({QAbs(a[1]), QAbs(a[2])}) IN IF Over0(a) THEN <<QZero, h[2]>> ELSE h
RPow(a, n) == LET b == IF n % 2 = 0 THEN RAbs(a) ELSE a IN <<Pw(b[1], n), Pw(b[2], n)>>      \* n >= 0
Range(e, iv) ==
  CASE e.k = "c" -> <<QI(e.n, e.d), QI(e.n, e.d)>>
    [] e.k = "v" -> iv
    [] e.k = "u" -> LET a == Range(e.a, iv) IN IF a = Undef THEN Undef ELSE IF e.o = "neg" THEN <<QNeg(a[2]), QNeg(a[1])>> ELSE RAbs(a)
    [] e.k = "b" /\ e.o = "^" ->
         LET a == Range(e.l, iv) n == e.r.n IN
         IF a = Undef \/ (n < 1 /\ Over0(a)) THEN Undef ELSE IF n >= 0 THEN RPow(a, n) ELSE RInv(RPow(a, -n))
    [] e.k = "b" ->
         LET a == Range(e.l, iv) b == Range(e.r, iv) IN
         IF a = Undef \/ b = Undef THEN Undef
         ELSE CASE e.o = "+" -> <<QAdd(a[1], b[1]), QAdd(a[2], b[2])>>
                [] e.o = "-" -> <<QSub(a[1], b[2]), QSub(a[2], b[1])>>
                [] e.o = "*" -> RMul(a, b)
                [] e.o = "/" -> IF Over0(b) THEN Undef ELSE RMul(a, RInv(b))
Mag(a) == QMax(QAbs(a[1]), QAbs(a[2]))
\* the largest magnitude among the intermediate results
Depth(e, iv) == LET r == Range(e, iv) here == IF r = Undef THEN QZero ELSE Mag(r) IN
                CASE e.k = "u" -> QMax(here, Depth(e.a, iv)) [] e.k = "b" -> QMax(here, QMax(Depth(e.l, iv), Depth(e.r, iv))) [] OTHER -> here

\* laws: the value lies in the extension, the extension is monotone, and it is exact at a point
Sample == LET x == [k |-> "v", s |-> "x"] c(n, d) == [k |-> "c", n |-> n, d |-> d] b(o, l, r) == [k |-> "b", o |-> o, l |-> l, r |-> r] IN
  { x, b("*", x, b("-", x, c(1, 1))), b("/", c(-3, 1), b("+", c(4, 1), b("^", x, c(2, 1)))), [k |-> "u", o |-> "abs", a |-> b("^", x, c(3, 1))],
    b("^", b("+", x, c(1, 3)), c(-2, 1)), [k |-> "u", o |-> "neg", a |-> b("/", x, c(2, 1))] }
ASSUME \A e \in Sample, i \in {1, 3, 5, 7} :
         LET r == Range(e, <<LoOf(i), HiOf(i)>>) IN
         r # Undef => \A q \in Points(i) : LET v == Value(e, q) IN v # Undef => (QLe(r[1], v[1]) /\ QLe(v[1], r[2]) /\ LET p == Range(e, <<q, q>>) IN QCmp(p[1], v[1]) = 0 /\ QCmp(p[2], v[1]) = 0)
=============================================================================
