---------------------------- MODULE TraceTaylor -----------------------------
(* Conformance of Taylor expansion and integration.  The expansion r of c in x about x0 to order n must be *)
(* the polynomial whose series at x0 agrees with the series of c (Series.tla) up to order n and vanishes   *)
(* beyond (Nd is larger than n).  Other variables are parameters: they are pinned to two different values. *)
(* The integral of c must be an antiderivative: the derivative of r by dual numbers is c (Sem.tla).        *)
EXTENDS Series, Emit, IOUtils
Calc == INSTANCE Sem WITH UnitMode <- "prod"
Trace == ndJsonDeserialize(IOEnv.TRACE)
Chunk == 10
VARIABLE l
Init == l \in { i \in 1..Len(Trace) : (i - 1) % Chunk = 0 }
Next == l % Chunk # 0 /\ l < Len(Trace) /\ l' = l + 1
Spec == Init /\ [][Next]_l
Has(ev, f) == f \in DOMAIN ev

RECURSIVE Pin(_, _, _)
Pin(e, x, c) ==
  CASE e.k = "v" -> IF e.s = x THEN e ELSE [k |-> "c", r |-> c]
    [] e.k = "u" -> [e EXCEPT !.a = Pin(@, x, c)]
    [] e.k = "b" -> [e EXCEPT !.l = Pin(@, x, c), !.r = Pin(@, x, c)]
    [] OTHER -> e
RECURSIVE Known(_)
Known(e) ==                                      \* only what Series.tla gives a meaning to
  CASE e.k \in {"c", "v"} -> TRUE
    [] e.k = "u" -> e.o \in {"neg", "exp", "ln", "sin", "cos"} /\ Known(e.a)
    [] e.k = "b" -> e.o \in {"+", "-", "*", "/", "^"} /\ Known(e.l) /\ Known(e.r)
    [] OTHER -> FALSE
RECURSIVE NoNumber(_)
NoNumber(e) ==
  CASE e.k \in {"nan", "inf"} -> TRUE
    [] e.k = "u" -> NoNumber(e.a)
    [] e.k = "b" -> NoNumber(e.l) \/ NoNumber(e.r)
    [] OTHER -> FALSE
\* named deviation: a natural power of something that vanishes at the point, written with a run-time number
RECURSIVE NaturalPowerOfZero(_, _, _)
NaturalPowerOfZero(e, x, x0) ==
  CASE e.k = "u" -> NaturalPowerOfZero(e.a, x, x0)
    [] e.k = "b" -> \/ NaturalPowerOfZero(e.l, x, x0) \/ NaturalPowerOfZero(e.r, x, x0)
                    \/ e.o = "^" /\ e.r.k = "c" /\ IsSmall(Res(e.r)) /\ SmallInt(Res(e.r)) >= 0 /\ At0(SEval(e.l, x, x0)) = 0
    [] OTHER -> FALSE

Pins == {3, 10}
TaylorV(ev) ==
  LET x0 == FRat(ev.n, ev.d)
      want(c) == SEval(Pin(ev.c, ev.x, c), ev.x, x0)
      got(c) == SEval(Pin(ev.r, ev.x, c), ev.x, x0)
      goal(c, k) == IF k <= ev.order THEN Co(want(c), k) ELSE 0
  IN IF \E c \in Pins : \E k \in 0..ev.order : Co(want(c), k) = Bot THEN "vacuous"
     ELSE IF NoNumber(ev.r) THEN (IF NaturalPowerOfZero(ev.c, ev.x, x0) /\ ev.style # "C" THEN "expansion of a natural power with a run-time exponent at a zero of its base is not a number" ELSE "not a number")
     ELSE IF ~Known(ev.r) THEN "unknown"
     ELSE LET bad == { <<c, k>> \in Pins \X K : Co(got(c), k) # Unk /\ goal(c, k) # Unk /\ Co(got(c), k) # goal(c, k) }
              unk == { <<c, k>> \in Pins \X K : Co(got(c), k) = Unk \/ goal(c, k) = Unk }
          IN IF ev.fi = 1 THEN (IF bad = {} /\ unk = {} THEN "ok" ELSE "rounded")
             ELSE IF bad # {} THEN "wrong series" ELSE IF unk = {} THEN "ok" ELSE "unknown"

\* dr/dx = c
IntegV(ev) ==
  LET At(e, i, dv) == Calc!Eval(e, Calc!Env(i, dv))
      pts == { i \in 1..3 : At(ev.c, i, "none")[2] >= 0 }
      ok == \A i \in pts : At(ev.r, i, ev.x)[2] >= 0 /\ At(ev.r, i, ev.x)[3] = At(ev.c, i, "none")[2]
  IN IF pts = {} THEN "vacuous" ELSE IF ok THEN "ok" ELSE IF ev.fi = 1 THEN "rounded" ELSE "wrong integral"

\* integrals of sums and differences of functions of other variables, the variable and its powers are provided
RECURSIVE HasVar(_, _)
HasVar(e, x) == CASE e.k = "v" -> e.s = x [] e.k = "u" -> HasVar(e.a, x) [] e.k = "b" -> HasVar(e.l, x) \/ HasVar(e.r, x) [] OTHER -> FALSE
RECURSIVE Integrable(_, _)
Integrable(e, x) == \/ ~HasVar(e, x)
                    \/ e.k = "v"
                    \/ e.k = "b" /\ e.o \in {"+", "-"} /\ Integrable(e.l, x) /\ Integrable(e.r, x)
                    \/ e.k = "b" /\ e.o = "^" /\ e.l.k = "v" /\ e.r.k = "c" /\ e.r.d = 1 /\ e.r.n # -1

RECURSIVE Big(_)
Big(e) == CASE e.k = "c" -> e.n > 100 [] e.k = "u" -> Big(e.a) [] e.k = "b" -> Big(e.l) \/ Big(e.r) [] OTHER -> FALSE
Verdict(ev) ==
  CASE Has(ev, "crash") \/ Has(ev, "hang") -> "crash"
    [] Has(ev, "exc") -> "unexpected error"
    [] Has(ev, "nocompile") ->
         IF ev.why = "overflow" \/ (ev.why = "depth" /\ Big(ev.c)) THEN "refused"   \* beyond 64 bits, or beyond what the compiler can unfold
         ELSE IF ev.op = "integ" THEN (IF Integrable(ev.c, ev.x) /\ ev.style = "C" THEN "not provided" ELSE "refused")
         ELSE (IF \E c \in Pins : \E k \in 0..ev.order : Co(SEval(Pin(ev.c, ev.x, c), ev.x, FRat(ev.n, ev.d)), k) = Bot THEN "refused" ELSE "not provided")
    [] ev.op = "integ" -> IntegV(ev)
    [] OTHER -> TaylorV(ev)
Judge == LET v == Verdict(Trace[l]) IN v = "ok" \/ Emit([l |-> l, v |-> v])
=============================================================================
