------------------------------ MODULE TraceIv -------------------------------
(* Conformance of interval evaluation.  Event: the expression e, the interval number i, and the result   *)
(* (lo, hi exact doubles, or infinite) or the error.                                                     *)
EXTENDS Interval, Emit, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
Chunk == 25
VARIABLE l
Init == l \in { i \in 1..Len(Trace) : (i - 1) % Chunk = 0 }
Next == l % Chunk # 0 /\ l < Len(Trace) /\ l' = l + 1
Spec == Init /\ [][Next]_l
Has(ev, f) == f \in DOMAIN ev
Dbl(v) == LET m == Z(v.s, Strip(Mant(v.hi, v.lo))) IN QMul(Q(m, Z(1, One)), Pow2(v.x))
Inf(v) == IF Has(v, "inf") THEN v.inf ELSE 0
Tol(m) == QMul(Pow2(-20), QAdd(QOne, m))

\* is the bound on the right side of the number t >= 0 with t^d = w (or of w itself for d = 1)
Below(v, w, d) == Inf(v) = -1 \/ (Inf(v) = 0 /\ IF d = 1 THEN QLe(Dbl(v), w) ELSE v.s <= 0 \/ QLe(Pw(Dbl(v), d), w))
Above(v, w, d) == Inf(v) = 1 \/ (Inf(v) = 0 /\ IF d = 1 THEN QLe(w, Dbl(v)) ELSE v.s >= 0 /\ QLe(w, Pw(Dbl(v), d)))
Base0(e) == IF Fractional(e) THEN e.l ELSE e
\* the exact value (raised to the denominator of a fractional exponent) at a point, or Undef
Exact(ev, q) ==
  LET a == Value(Base0(ev.e), q) IN
  IF a = Undef THEN Undef
  ELSE IF ev.op = "deriv" THEN (IF a[2] = NoD THEN Undef ELSE <<a[2]>>)
  ELSE IF ~Fractional(ev.e) THEN <<a[1]>>
  ELSE IF Neg(a[1]) \/ (IsZero(a[1]) /\ ev.e.r.n < 1) THEN Undef ELSE <<Pw(a[1], ev.e.r.n)>>
Den(ev) == IF Fractional(ev.e) THEN ev.e.r.d ELSE 1
IV(i) == <<LoOf(i), HiOf(i)>>
Degenerate(i) == Ivs[i][1] = Ivs[i][2]

\* the constants of a derivative are computed (and rounded) before the interval is put in
Slack(ev, q, t) == IF ev.op = "deriv" THEN QMul(Pow2(-44), QAdd(QOne, QMax(QAbs(t), Depth(ev.e, <<q, q>>)))) ELSE QZero

Wide(ev) ==
  LET i == ev.i r == Range(Base0(ev.e), IV(i)) m == Depth(Base0(ev.e), IV(i))
      near(v, w) == Inf(v) = 0 /\ QLe(QAbs(QSub(Dbl(v), w)), Tol(m))
  IN CASE ~Moderate(i) -> FALSE
       [] ev.op = "deriv" ->
            Degenerate(i) /\ LET t == Exact(ev, LoOf(i)) tol == QMul(Tol(m), QAdd(QOne, QMax(m, QAbs(t[1])))) IN
                             t # Undef /\ r # Undef /\ ~(Inf(ev.lo) = 0 /\ Inf(ev.hi) = 0 /\ QLe(QSub(Dbl(ev.hi), Dbl(ev.lo)), tol) /\ QLe(QAbs(QSub(Dbl(ev.lo), t[1])), tol))
       [] r = Undef -> FALSE
       [] Count(ev.e) # 1 /\ ~Degenerate(i) -> FALSE
       [] Fractional(ev.e) ->
            \* the bounds raised to the denominator are those of the power
            ~(Neg(r[1]) \/ (IsZero(r[1]) /\ ev.e.r.n < 1)) /\
            LET w == Hull({Pw(r[1], ev.e.r.n), Pw(r[2], ev.e.r.n)}) tol == Tol(QMax(m, w[2])) IN
            ~(Inf(ev.lo) = 0 /\ Inf(ev.hi) = 0 /\ QLe(QSub(w[1], Pw(Dbl(ev.lo), Den(ev))), tol) /\ QLe(QSub(Pw(Dbl(ev.hi), Den(ev)), w[2]), tol))
       [] OTHER -> ~(near(ev.lo, r[1]) /\ near(ev.hi, r[2]))

Verdict(ev) ==
  LET defined == { q \in Points(ev.i) : Exact(ev, q) # Undef } IN
  CASE Has(ev, "crash") -> "crash"
    [] Has(ev, "nocompile") -> "not provided"
    [] defined = {} -> "vacuous"
    [] Has(ev, "exc") -> "refused"
    [] Has(ev.lo, "nan") \/ Has(ev.hi, "nan") -> "not an interval"
    [] Has(ev, "const") -> IF \A q \in defined : LET t == Exact(ev, q) IN QLe(QAbs(QSub(Dbl(ev.lo), t[1])), Tol(QAbs(t[1]))) THEN "ok" ELSE "wrong value"
    [] ~(\A q \in defined : LET t == Exact(ev, q) s == Slack(ev, q, t[1]) IN Below(ev.lo, QAdd(t[1], s), Den(ev)) /\ Above(ev.hi, QSub(t[1], s), Den(ev))) -> "value outside"
    [] Wide(ev) -> "wider than the range"
    [] OTHER -> "ok"
Judge == LET v == Verdict(Trace[l]) IN v = "ok" \/ Emit([l |-> l, v |-> v])
=============================================================================
