------------------------------- MODULE TraceAd ------------------------------
(* Conformance of automatic differentiation: every recorded call must return the coefficients of the      *)
(* truncated power series of the expression (Series.tla), and refuse what it does not support.             *)
EXTENDS Series, Emit, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
Chunk == 25
VARIABLE l
Init == l \in { i \in 1..Len(Trace) : (i - 1) % Chunk = 0 }
Next == l % Chunk # 0 /\ l < Len(Trace) /\ l' = l + 1
Spec == Init /\ [][Next]_l
Has(ev, f) == f \in DOMAIN ev

Ops == { "neg", "exp", "ln", "sin", "cos", "+", "-", "*", "/", "^" }
RECURSIVE Supported(_)
Supported(e) ==
  CASE e.k \in {"c", "v"} -> TRUE
    [] e.k = "u" -> e.o \in Ops /\ Supported(e.a)
    [] e.k = "b" -> e.o \in Ops /\ Supported(e.l) /\ Supported(e.r)
    [] OTHER -> FALSE

\* the constants of the expression are the ones that were asked for: an observation that is no number is -3
Verdict(ev) ==
  IF Has(ev, "crash") \/ Has(ev, "hang") THEN "crash"
  ELSE IF Has(ev, "exc") THEN (IF ev.exc = "stator" /\ ~Supported(ev.c) THEN "ok" ELSE "unexpected error")
  ELSE IF ~Supported(ev.c) THEN "unsupported expression accepted"
  ELSE IF Len(ev.r) # Nd + 1 THEN "wrong number of coefficients"
  ELSE LET s == SEval(ev.c, ev.x, FRat(ev.n, ev.d)) IN
       IF s = Nothing THEN "vacuous"
       ELSE LET known == { k \in K : Def(Co(s, k)) }
                bad == { k \in known : ev.r[k + 1] # Co(s, k) }
            IN IF ev.fi = 1 THEN (IF bad = {} /\ known = K THEN "ok" ELSE "rounded")
               ELSE IF bad # {} THEN "wrong coefficient"
               ELSE IF known = K THEN "ok" ELSE "unknown"
Judge == LET v == Verdict(Trace[l]) IN v = "ok" \/ Emit([l |-> l, v |-> v])
=============================================================================
