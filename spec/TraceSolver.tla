----------------------------- MODULE TraceSolver ----------------------------
(* Recorded runs of the iterative solvers.  A solver is a state machine whose state is the set of points *)
(* it has evaluated; the contract below says which evaluations and which answers are allowed.            *)
EXTENDS Field, TLC, Emit, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
Chunk == 25
VARIABLE l
Init == l \in { i \in 1..Len(Trace) : (i - 1) % Chunk = 0 }
Next == l % Chunk # 0 /\ l < Len(Trace) /\ l' = l + 1
Spec == Init /\ [][Next]_l
U == 1048576
Far == 1000000000
Pos(q) == IF q[2] = 0 THEN q[1] * Far ELSE (q[1] * U) \div q[2]
Ab(a) == IF a < 0 THEN -a ELSE a
Mx(a, b) == IF a > b THEN a ELSE b
Pt(ev, i) == ev.calls[i][1][1]
Sign(ev, i) == ev.calls[i][2]
IsZero(ev, i) == ev.calls[i][3] = 0
Lo(ev) == Pos(ev.lo)
Hi(ev) == Pos(ev.hi)
Inside(ev) == \A i \in 1..Len(ev.calls) : Lo(ev) <= Pt(ev, i) /\ Pt(ev, i) <= Hi(ev) /\ (Pt(ev, i) = Hi(ev) => ev.calls[i][1][2] = 0 \/ Hi(ev) = Far)
\* the requested precision at x, in grid units, with two units for the grid
Tol(ev, x) == (Ab(x) \div (2^(ev.dg - 1))) + 2
At(ev) == { i \in 1..Len(ev.calls) : ev.calls[i][1] = ev.x }
AnsweredInside(ev) == At(ev) # {} /\ Lo(ev) <= ev.x[1] /\ ev.x[1] <= Hi(ev)
\* bisection: the bracket kept by the sign changes seen so far
RECURSIVE Brackets(_, _, _)
Brackets(ev, i, b) ==       \* b = <<low, high, sign at high>>; result: every further evaluation lies in the bracket
  IF i > Len(ev.calls) THEN b
  ELSE IF b[1] > Pt(ev, i) \/ Pt(ev, i) > b[2] THEN <<>>
  ELSE Brackets(ev, i + 1, IF i = Len(ev.calls) /\ ev.ok = 1 THEN b
                           ELSE IF Sign(ev, i) = b[3] THEN <<b[1], Pt(ev, i), b[3]>> ELSE <<Pt(ev, i), b[2], b[3]>>)
BisectionOk(ev) ==
  IF Lo(ev) >= Hi(ev) \/ Ab(Lo(ev)) = Far \/ Ab(Hi(ev)) = Far THEN ev.ok = 0
  ELSE /\ Len(ev.calls) >= 2
       /\ { ev.calls[1][1][1], ev.calls[2][1][1] } = { Lo(ev), Hi(ev) }
       /\ LET h == IF Pt(ev, 1) = Hi(ev) THEN 1 ELSE 2 IN
          IF Sign(ev, 1) = Sign(ev, 2) THEN ev.ok = 0
          ELSE LET b == Brackets(ev, 3, <<Lo(ev), Hi(ev), Sign(ev, h)>>) IN
               /\ b # <<>>
               /\ IF ev.ok = 1 THEN \/ \E i \in At(ev) : IsZero(ev, i)
                                    \/ (b[2] - b[1]) \div 2 <= Tol(ev, ev.x[1])
                  ELSE ev.it # 0 /\ ev.n >= ev.it + 1        \* only an exhausted limit is a failure
       /\ ev.it # 0 => ev.n <= ev.it + 1
StepOk(ev) ==
  /\ Len(ev.calls) >= 1 /\ Pt(ev, 1) = Pos(ev.x0)
  /\ IsZero(ev, 1) => ev.ok = 1 /\ ev.n = 1
  /\ ev.it # 0 => ev.n <= 1 + (IF ev.m = "newton" THEN 4 ELSE 5) * (ev.it - 1)
  /\ ev.ok = 1 => \/ \E i \in At(ev) : IsZero(ev, i)
                  \* the last step, or the enclosing sign change, is smaller than the requested precision
                  \/ \E i \in 1..Len(ev.calls) : ev.calls[i][1] # ev.x /\ Ab(Pt(ev, i)) < Far /\ Ab(Pt(ev, i) - ev.x[1]) <= Tol(ev, ev.x[1])
                  \/ Ab(ev.x[1]) >= Far
                  \/ Tol(ev, ev.x[1]) <= 4
SolveOk(ev) ==
  /\ "runaway" \notin DOMAIN ev
  /\ Len(ev.calls) = ev.n => /\ Inside(ev)
                             /\ ev.ok = 1 => AnsweredInside(ev)
                             /\ IF ev.m = "bisection" THEN BisectionOk(ev) ELSE StepOk(ev)
\* single steps, as rational functions of the values
Fq(q) == FRat(q[1], q[2])
StepTo(ev) ==
  LET f == Fq(ev.v[1]) d == Fq(ev.v[2]) h == Fq(ev.v[3]) x == Fq(ev.x) IN
  CASE ev.m = "newton" -> FSub(x, FDiv(f, d))
    [] ev.m = "halley" -> FSub(x, FDiv(FMul(2, FMul(f, d)), FSub(FMul(2, FMul(d, d)), FMul(f, h))))
    [] ev.m = "schroeder" -> FSub(FSub(x, FDiv(f, d)), FDiv(FMul(h, FMul(f, f)), FMul(2, FMul(d, FMul(d, d)))))
OneStepOk(ev) ==
  IF ev.v[2][1] = 0 /\ ev.m # "halley" THEN ev.st = 0 /\ ev.pts = <<>>
  ELSE IF ev.pts = <<>> THEN ev.st = 0 /\ ev.m = "halley"
  ELSE ev.fi = 1 \/ (Len(ev.pts) = 1 /\ StepTo(ev) >= 0 /\ ev.pts[1] = StepTo(ev) /\ ev.x1 = ev.pts[1] /\ ev.st \in {1, 2})
\* one bisection step: all numbers are quarters, so that mid points are exact on the grid
BStepOk(ev) ==
  LET a == Pos(ev.lo) b == Pos(ev.hi) mid == (a + b) \div 2 same == (ev.v[1] < 0) = (ev.v[2] < 0) IN
  /\ ev.stray = 0
  /\ IF a >= b \/ same THEN ev.st = 0 /\ ev.lo1 = <<a, 0>> /\ ev.hi1 = <<b, 0>>
     ELSE /\ ev.st \in {1, 2} /\ ev.x1 = <<mid, 0>> /\ ev.fv = ev.v[3]
          /\ ev.st = 2 => ev.v[3] = 0 \/ (b - a) \div 2 <= Ab(mid) \div (2^(ev.dg - 1)) + 1
          /\ ev.st = 1 => IF (ev.v[3] < 0) = (ev.v[2] < 0) THEN ev.lo1 = <<a, 0>> /\ ev.hi1 = <<mid, 0>>
                          ELSE ev.lo1 = <<mid, 0>> /\ ev.hi1 = <<b, 0>>
\* exponent of an odd number times a power of two
RECURSIVE Bits(_)
Bits(n) == IF n = 0 THEN 0 ELSE 1 + Bits(n \div 2)
Expo(q) == Bits(Ab(q[1])) + q[2]
DigitsOk(ev) ==
  LET z == ev.a[1] = 0 \/ ev.b[1] = 0
      same == (ev.a[1] < 0) = (ev.b[1] < 0)
      d == Ab(Expo(ev.a) - Expo(ev.b))
  IN ev.sub = (IF z \/ ~same THEN -1 ELSE d) /\ ev.add = (IF z \/ same THEN -1 ELSE d)
Ok(ev) == CASE ev.op = "solve" -> SolveOk(ev)
            [] ev.op = "step" -> OneStepOk(ev)
            [] ev.op = "bstep" -> BStepOk(ev)
            [] ev.op = "prec" -> ev.nn = 1 /\ (ev.within = 1 \/ Len(ev.f) = 1)
            [] ev.op = "digits" -> DigitsOk(ev)
Verdict(ev) ==
  CASE "crash" \in DOMAIN ev \/ "hang" \in DOMAIN ev -> "crash"
    [] "exc" \in DOMAIN ev -> "unexpected error"
    [] Ok(ev) -> "ok"
    [] OTHER -> "wrong"
Judge == LET v == Verdict(Trace[l]) IN v = "ok" \/ Emit([l |-> l, v |-> v])
=============================================================================
