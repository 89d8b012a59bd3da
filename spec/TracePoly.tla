----------------------------- MODULE TracePoly ------------------------------
(* Recorded polynomial operations against the polynomial ring.                                           *)
EXTENDS Poly, Emit, IOUtils
SX == INSTANCE Syntax
Trace == ndJsonDeserialize(IOEnv.TRACE)
Chunk == 25
VARIABLE l
Init == l \in { i \in 1..Len(Trace) : (i - 1) % Chunk = 0 }
Next == l % Chunk # 0 /\ l < Len(Trace) /\ l' = l + 1
Spec == Init /\ [][Next]_l

Two(e) == IF e >= 0 THEN PowN(2, e) ELSE InvTab[PowN(2, -e)]
R(q) == IF Len(q) = 3 THEN FMul(FRat(q[1], q[2]), Two(q[3])) ELSE FRat(q[1], q[2])      \* n/d, or n/d * 2^e
Rs(s) == [i \in 1..Len(s) |-> R(s[i])]
PosInf == 20001
NegInf == 20002
Refused == 20004
Inexact == 20005
Sgn(q) == IF q[1] = 0 THEN 0 ELSE IF q[1] > 0 THEN 1 ELSE -1
\* the limit of a polynomial at (+1 / -1) infinity
AtInf(c, s) == LET tops == { i \in 2..Len(c) : c[i][1] # 0 } IN
  IF tops = {} THEN R(c[1])
  ELSE LET t == CHOOSE i \in tops : \A j \in tops : j <= i
           sg == Sgn(c[t]) * (IF s < 0 /\ (t - 1) % 2 = 1 THEN -1 ELSE 1)
       IN IF sg > 0 THEN PosInf ELSE NegInf
RECURSIVE TreeVal(_, _)
TreeVal(e, x) ==
  CASE e.k = "c" -> IF "r" \in DOMAIN e THEN e.r ELSE FRat(e.n, e.d)
    [] e.k = "v" -> IF e.s = "x" THEN x ELSE Bot
    [] e.k = "u" -> IF e.o = "neg" THEN FNeg(TreeVal(e.a, x)) ELSE Bot
    [] e.k = "b" -> LET a == TreeVal(e.l, x) b == TreeVal(e.r, x) IN
                    CASE e.o = "+" -> FAdd(a, b) [] e.o = "-" -> FSub(a, b) [] e.o = "*" -> FMul(a, b) [] e.o = "^" -> FPow(a, b) [] OTHER -> Bot
    [] OTHER -> Bot
PrintOk(ev, f) ==
  /\ Len(ev.t) >= 3 /\ ev.t[1] = "P" /\ ev.t[2] = "(" /\ ev.t[Len(ev.t)] = ")"
  /\ LET e == SX!Parse(SubSeq(ev.t, 2, Len(ev.t))) IN
     /\ e # SX!NoParse
     /\ \A x \in {17, 101, 3000} : TreeVal(e, x) = QEval(f, x)
\* value of the mobius transformed polynomial: (c x + d)^n f((a x + b)/(c x + d))
RECURSIVE Track(_, _, _)
Track(ops, i, m) ==
  IF i > Len(ops) THEN m
  ELSE LET k == R(ops[i].k) IN
       Track(ops, i + 1,
         CASE ops[i].w = "shift" -> <<m[1], FAdd(m[2], FMul(m[1], k)), m[3], FAdd(m[4], FMul(m[3], k))>>
           [] ops[i].w = "scale" -> <<FMul(m[1], k), m[2], FMul(m[3], k), m[4]>>
           [] OTHER -> <<m[2], FAdd(m[1], m[2]), m[4], FAdd(m[3], m[4])>>)
MobVal(m, f, x) == LET den == FAdd(FMul(m[3], x), m[4]) num == FAdd(FMul(m[1], x), m[2]) IN
  IF den = 0 THEN Bot ELSE FMul(PowN(den, Len(f) - 1), QEval(f, FDiv(num, den)))
MobAt(m, x) == LET den == FAdd(FMul(m[3], x), m[4]) IN IF den = 0 THEN Bot ELSE FDiv(FAdd(FMul(m[1], x), m[2]), den)
MobiusOk(ev, f) ==
  LET m == Track(ev.ops, 1, <<1, 0, 0, 1>>)
      xs == <<0, 1, 2, FRat(1, 2)>>
  IN /\ ev.m = m
     /\ \A x \in {5, 17, 23, 101, 300, 777, 1234} : LET w == MobVal(m, f, x) IN w < 0 \/ QEval(ev.r, x) = w
     /\ \A i \in 1..4 : ev.ev[i] = Inexact \/ MobAt(m, xs[i]) < 0 \/ ev.ev[i] = MobAt(m, xs[i])
     /\ (m[3] # 0 /\ ev.ev[5] # Inexact) => ev.ev[5] = FDiv(m[1], m[3])
Ok(ev) ==
  LET f == Rs(ev.f)
      g == IF "g" \in DOMAIN ev THEN Rs(ev.g) ELSE <<>>
      k == IF "k" \in DOMAIN ev THEN R(ev.k) ELSE 0
      Is(h) == Same(ev.r, h)
  IN
  CASE ev.op \in {"add", "iadd"} -> Is(QAdd(f, g))
    [] ev.op \in {"sub", "isub"} -> Is(QSub(f, g))
    [] ev.op \in {"mul", "imul"} -> Is(QMul(f, g))
    [] ev.op = "compose" -> Is(Compose(f, g))
    [] ev.op = "eqp" -> ev.r = (IF f = g THEN <<1, 0>> ELSE <<0, 1>>)
    [] ev.op = "neg" -> Is(QNeg(f))
    [] ev.op \in {"id", "suby", "rename", "up", "orderup", "range"} -> Is(f)
    [] ev.op \in {"lsmul", "rsmul"} -> Is(QScale(k, f))
    [] ev.op = "sdiv" -> Is(QScale(Inv(k), f))
    [] ev.op \in {"lsadd", "rsadd"} -> Is(QAdd(<<k>>, f))
    [] ev.op = "lssub" -> Is(QSub(<<k>>, f))
    [] ev.op = "rssub" -> Is(QSub(f, <<k>>))
    [] ev.op \in {"xmul", "mulx"} -> Is(QMul(<<0, 1>>, f))
    [] ev.op = "pow2" -> Is(QMul(f, f))
    [] ev.op = "pow3" -> Is(QMul(f, QMul(f, f)))
    [] ev.op = "deriv" -> Is(QDeriv(f))
    [] ev.op = "derivy" -> Is(<<0>>)
    [] ev.op \in {"eval", "evali", "evalf"} -> ev.r = <<QEval(f, k)>>
    [] ev.op = "eval0" -> ev.r = <<f[1]>>
    [] ev.op = "infp" -> ev.r = <<AtInf(ev.f, 1)>>
    [] ev.op = "infm" -> ev.r = <<AtInf(ev.f, -1)>>
    [] ev.op = "taylor" -> ev.r = [i \in 1..5 |-> QEval(QDerivN(f, i - 1), k)]
    [] ev.op = "taylor1" -> ev.r = [i \in 1..2 |-> QEval(QDerivN(f, i - 1), k)]
    [] ev.op = "orderdown" -> Is(SubSeq(f, 1, IF Len(f) < 2 THEN Len(f) ELSE 2))
    [] ev.op = "iter" -> IF Len(f) > 4 THEN ev.r = <<Refused>> ELSE Is(f)
    [] ev.op = "print" -> PrintOk(ev, f)
    \* the division identity, with a remainder of lower degree than the divisor; division by zero is not defined
    [] ev.op = "div" -> Deg(g) < 0 \/ (/\ Same(f, QAdd(QMul(ev.r, g), ev.rem))
                                       /\ Deg(ev.rem) < Deg(g)
                                       /\ \A i \in 1..Len(ev.r) : ev.r[i] < P)
    [] ev.op \in {"deflate", "deflate0"} -> Is(Rs(ev.c))
    [] ev.op = "shift" -> Is(Shifted(f, k))
    [] ev.op = "shift1" -> Is(Shifted(f, 1))
    [] ev.op \in {"back", "reflect2", "unscale"} -> Is(f)
    [] ev.op = "reflect" -> Is(Compose(f, <<0, P - 1>>))
    [] ev.op = "scale" -> Is(Compose(f, <<0, k>>))
    [] ev.op = "invshift" -> Is(Shifted(Reversed(f), 1))
    [] ev.op = "mobius" -> MobiusOk(ev, f)
Verdict(ev) ==
  CASE "crash" \in DOMAIN ev \/ "hang" \in DOMAIN ev -> "crash"
    [] "exc" \in DOMAIN ev -> "unexpected error"
    [] ev.fi = 1 -> "rounded"
    [] Ok(ev) -> "ok"
    [] OTHER -> "wrong value"
Judge == LET v == Verdict(Trace[l]) IN v = "ok" \/ Emit([l |-> l, v |-> v])
=============================================================================
