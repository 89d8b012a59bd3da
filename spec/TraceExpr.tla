----------------------------- MODULE TraceExpr ------------------------------
(* Conformance of recorded executions of the run-time expression library.  Each line of the trace is   *)
(* one public call (simplify, sub, derivative, ...) with the expression the specification asked for    *)
(* (c), the operand as built (e), the result (r) and the operand afterwards (after); the call must be  *)
(* a step the specification allows.  Calls are independent, so the trace is cut into chunks that TLC's *)
(* workers consume in parallel; every line is one state.                                               *)
EXTENDS Sem, Emit, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
Chunk == 25
VARIABLE l

Init == l \in { i \in 1..Len(Trace) : (i - 1) % Chunk = 0 }
Next == /\ l % Chunk # 0
        /\ l < Len(Trace)
        /\ l' = l + 1
Spec == Init /\ [][Next]_l

Has(ev, f) == f \in DOMAIN ev
Points == 1..3
At(e, i) == Eval(e, Env(i, "none"))
Same(e, f) == \A i \in Points : Agree("m", At(e, i), At(f, i))

\* the operand the library built from the public operators denotes the expression that was asked for
BuildOk(ev) == ~Has(ev, "e") \/ (Same(ev.c, ev.e) /\ Vars(ev.e) \subseteq Vars(ev.c))

SimplifyOk(ev) == Same(ev.c, ev.r) /\ Vars(ev.r) \subseteq Vars(ev.c)

\* substitution lemma: [[ sub(e, s) ]] rho  =  [[ e ]] (rho o s)   with s applied simultaneously
Pairs(s) == IF s.k = "dict" THEN s.m ELSE << <<s.l, s.r>> >>
SubEnv(s, i) ==
  LET rho == Env(i, "none")
      m == Pairs(s)
      hit(n) == { j \in 1..Len(m) : m[j][1].s = n }
  IN [n \in VarNames \cup {"_"} |-> IF hit(n) = {} THEN rho[n] ELSE Eval(m[CHOOSE j \in hit(n) : TRUE][2], rho)]
SubOk(ev) ==
  /\ \A i \in Points : Agree("m", Eval(ev.c, SubEnv(ev.s, i)), At(ev.r, i))
  /\ LET m == Pairs(ev.s)
         dom == { m[j][1].s : j \in 1..Len(m) }
     IN Vars(ev.r) \subseteq (Vars(ev.c) \ dom) \cup UNION { Vars(m[j][2]) : j \in 1..Len(m) }

DerivOk(ev) == \A i \in Points : Agree("d", Eval(ev.c, Env(i, ev.x.s)), At(ev.r, i))

\* named deviation: the derivative of an array access is the access itself
DerivIdx(ev) == ev.op = "deriv" /\ HasOp(ev.c, {"idx"})
                /\ \A i \in Points : Agree("d", Eval(ev.c, EnvF(i, ev.x.s, 1)), At(ev.r, i))

ValueOk(ev) ==
  CASE ev.op = "simplify" -> SimplifyOk(ev)
    [] ev.op = "sub" -> SubOk(ev)
    [] ev.op = "deriv" -> DerivOk(ev)
    [] ev.op = "build" -> SimplifyOk(ev)

Defined(ev) == IF ev.op = "sub" THEN \E i \in Points : Informative(Eval(ev.c, SubEnv(ev.s, i)))
               ELSE \E i \in Points : Informative(At(ev.c, i))

Unchanged(ev) == /\ Has(ev, "after") => ev.after = ev.e
                 /\ Has(ev, "safter") => ev.safter = ev.sb

\* a mismatch of array lengths and an access that is not an element of an array are the only ways to fail
MayFail(ev) ==
  \/ HasOp(ev.c, {"idx"})
  \/ HasKind(ev.c, {"arr"}) /\ \E i \in Points : Mismatch(At(ev.c, i))
  \/ ev.op = "sub" /\ Mismatch(Eval(ev.c, SubEnv(ev.s, 1)))
  \/ ev.op = "deriv" /\ HasOp(ev.c, {"idx", "unc"})
  \/ ev.op = "deriv" /\ HasKind(ev.c, {"dict"})

\* the compile-time library may refuse (not compile) only what has no value
Verdict(ev) ==
  CASE Has(ev, "crash") \/ Has(ev, "hang") -> "crash"
    [] Has(ev, "nocompile") -> IF Defined(ev) THEN "not provided" ELSE "refused"
    [] Has(ev, "exc") -> IF ev.exc = "stator" /\ MayFail(ev) THEN "error" ELSE "unexpected error"
    [] ~BuildOk(ev) -> "built wrong"
    [] ~Unchanged(ev) -> "operand modified"
    [] ValueOk(ev) -> IF Defined(ev) THEN "ok" ELSE "vacuous"
    [] ev.fi = 1 -> "rounded"             \* floating-point rounding took place: compare numerically instead
    [] DerivIdx(ev) -> "derivative of an array access is the access itself"
    [] ev.op = "simplify" /\ SymArrayMix(ev.c) -> "symbolic array taken for a scalar"
    [] OTHER -> "wrong value"

Judge == LET v == Verdict(Trace[l]) IN v = "ok" \/ Emit([l |-> l, v |-> v])
=============================================================================
