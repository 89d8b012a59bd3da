------------------------------- MODULE Series -------------------------------
(* Truncated power series in (x - x0) over GF(P): the values of automatic differentiation.  A series is  *)
(* the sequence of its coefficients f^(k)(x0)/k!, k = 0..Nd.  A coefficient is a residue, Bot where it   *)
(* does not exist, or Unk where it exists but is no rational number (exp 1, ln 2, 2^(1/2), ...).         *)
(* The functions are defined by their Taylor sums around the constant term, powers by the binomial       *)
(* series and quotients by the geometric series: not by the recurrences the library uses.                *)
EXTENDS Field
CONSTANT Nd

Unk == -2
K == 0..Nd
Ser(f(_)) == [i \in 1..(Nd + 1) |-> f(i - 1)] \o <<>>
At0(s) == s[1]
Co(s, k) == s[k + 1]
Def(a) == a >= 0
\* arithmetic that knows about Bot and Unk
J(a, b, r) == IF a = Bot \/ b = Bot THEN Bot ELSE IF a = Unk \/ b = Unk THEN Unk ELSE r
PAdd(a, b) == J(a, b, (a + b) % P)
PSub(a, b) == J(a, b, (a - b) % P)
PMul(a, b) == J(a, b, (a * b) % P)
Const(c) == Ser(LAMBDA k : IF k = 0 THEN c ELSE 0)
Nothing == Ser(LAMBDA k : Bot)
AllUnk == Ser(LAMBDA k : Unk)
SAdd(s, t) == Ser(LAMBDA k : PAdd(Co(s, k), Co(t, k)))
SSub(s, t) == Ser(LAMBDA k : PSub(Co(s, k), Co(t, k)))
SNeg(s) == Ser(LAMBDA k : PSub(0, Co(s, k)))
RECURSIVE Conv(_, _, _, _)
Conv(s, t, k, i) == IF i > k THEN 0 ELSE PAdd(PMul(Co(s, i), Co(t, k - i)), Conv(s, t, k, i + 1))
SMul(s, t) == Ser(LAMBDA k : Conv(s, t, k, 0))
Scale(c, s) == Ser(LAMBDA k : PMul(c, Co(s, k)))

\* sum over m of a[m] * h^m, where h has no constant term
RECURSIVE PowSum(_, _, _, _)
PowSum(a, h, m, hm) == IF m > Nd THEN Const(0) ELSE SAdd(Scale(a[m + 1], hm), PowSum(a, h, m + 1, SMul(hm, h)))
Compose(a, h) == PowSum(a, h, 0, Const(1))
Higher(s) == Ser(LAMBDA k : IF k = 0 THEN 0 ELSE Co(s, k))
RECURSIVE Fact(_)
Fact(k) == IF k = 0 THEN 1 ELSE k * Fact(k - 1)
InvF(k) == FRat(1, Fact(k))

Undefined(s) == At0(s) = Bot
SDiv(s, t) ==
  IF Undefined(s) \/ Undefined(t) \/ At0(t) = 0 THEN Nothing
  ELSE IF At0(t) = Unk THEN AllUnk
  ELSE LET i0 == Inv(At0(t))
           h == Scale(i0, Higher(t))
       IN SMul(Scale(i0, s), Compose(Ser(LAMBDA m : IF m % 2 = 0 THEN 1 ELSE P - 1), h))
SExp(s) == IF Undefined(s) THEN Nothing ELSE IF At0(s) # 0 THEN AllUnk
           ELSE Compose(Ser(LAMBDA m : InvF(m)), Higher(s))
SSin(s) == IF Undefined(s) THEN Nothing ELSE IF At0(s) # 0 THEN AllUnk
           ELSE Compose(Ser(LAMBDA m : IF m % 2 = 0 THEN 0 ELSE IF m % 4 = 1 THEN InvF(m) ELSE P - InvF(m)), Higher(s))
SCos(s) == IF Undefined(s) THEN Nothing ELSE IF At0(s) # 0 THEN AllUnk
           ELSE Compose(Ser(LAMBDA m : IF m % 2 = 1 THEN 0 ELSE IF m % 4 = 0 THEN InvF(m) ELSE P - InvF(m)), Higher(s))
SLn(s) == IF Undefined(s) \/ At0(s) = 0 \/ At0(s) \in NegTab THEN Nothing
          ELSE IF At0(s) = Unk THEN AllUnk
          ELSE LET c == Compose(Ser(LAMBDA m : IF m = 0 THEN 0 ELSE IF m % 2 = 1 THEN FRat(1, m) ELSE P - FRat(1, m)), Scale(Inv(At0(s)), Higher(s)))
               IN Ser(LAMBDA k : IF k = 0 THEN (IF At0(s) = 1 THEN 0 ELSE Unk) ELSE Co(c, k))

RECURSIVE SPowN(_, _)
SPowN(s, n) == IF n = 0 THEN Const(1) ELSE SMul(s, SPowN(s, n - 1))
RECURSIVE Falling(_, _)
Falling(a, m) == IF m = 0 THEN 1 ELSE FMul(Falling(a, m - 1), FSub(a, m - 1))
Binom(a, m) == FMul(Falling(a, m), InvF(m))
\* a power with a number for its exponent
SPowC(s, a) ==
  IF Undefined(s) THEN Nothing
  ELSE IF IsSmall(a) THEN LET n == SmallInt(a) IN
         IF n >= 0 THEN (IF n <= 12 THEN SPowN(s, n) ELSE AllUnk) ELSE IF n >= -12 THEN SDiv(Const(1), SPowN(s, -n)) ELSE AllUnk
  ELSE IF At0(s) = 1 THEN Compose(Ser(LAMBDA m : Binom(a, m)), Higher(s))
  ELSE IF At0(s) = 0 \/ At0(s) \in NegTab THEN Nothing
  ELSE AllUnk
\* any other power is exp(t ln s), for a positive base
SPow(s, t) == IF Undefined(s) \/ Undefined(t) \/ At0(s) = 0 \/ At0(s) \in NegTab THEN Nothing
              ELSE IF At0(s) # 1 THEN AllUnk ELSE SExp(SMul(t, SLn(s)))

Res(e) == IF "r" \in DOMAIN e THEN e.r ELSE FRat(e.n, e.d)
RECURSIVE SEval(_, _, _)
SEval(e, x, x0) ==                      \* the expression e at x = x0; every other variable has no value
  CASE e.k = "c" -> Const(Res(e))
    [] e.k = "v" -> IF e.s = x THEN Ser(LAMBDA k : IF k = 0 THEN x0 ELSE IF k = 1 THEN 1 ELSE 0) ELSE Nothing
    [] e.k = "u" -> LET s == SEval(e.a, x, x0) IN
         (CASE e.o = "neg" -> IF Undefined(s) THEN Nothing ELSE SNeg(s)
            [] e.o = "exp" -> SExp(s) [] e.o = "ln" -> SLn(s) [] e.o = "sin" -> SSin(s) [] e.o = "cos" -> SCos(s))
    [] e.k = "b" -> LET s == SEval(e.l, x, x0) IN
         IF e.o = "^" /\ e.r.k = "c" THEN SPowC(s, Res(e.r))
         ELSE LET t == SEval(e.r, x, x0) IN
              IF Undefined(s) \/ Undefined(t) THEN Nothing ELSE
              (CASE e.o = "+" -> SAdd(s, t) [] e.o = "-" -> SSub(s, t) [] e.o = "*" -> SMul(s, t)
                 [] e.o = "/" -> SDiv(s, t) [] e.o = "^" -> SPow(s, t))
=============================================================================
