----------------------------- MODULE TraceUnits -----------------------------
(* Quantities with units and uncertainties.  A unit is judged by two homomorphisms: "prod" reads q{u} as   *)
(* q*u, "erase" reads it as q (Sem.tla); a unit that moved, vanished or appeared changes one of the two.    *)
(* Beyond that, a product or quotient of quantities must be one quantity after simplification, and nothing *)
(* is uncertain or has a unit in the result that was not made of what was written.                         *)
EXTENDS TraceExpr

RECURSIVE Count(_, _)
Count(e, o) ==
  CASE e.k = "u" -> (IF e.o = o THEN 1 ELSE 0) + Count(e.a, o)
    [] e.k = "b" -> (IF e.o = o THEN 1 ELSE 0) + Count(e.l, o) + Count(e.r, o)
    [] OTHER -> 0
Plain(e) == Count(e, "units") = 0 /\ Count(e, "unc") = 0
RECURSIVE OfSymbols(_)                             \* a product of quantities, each in a unit that cannot vanish
OfSymbols(e) == \/ e.k = "b" /\ e.o = "units" /\ Plain(e.l) /\ e.r.k = "v" /\ e.l.k = "v"
                \/ e.k = "b" /\ e.o = "*" /\ OfSymbols(e.l) /\ OfSymbols(e.r)
RECURSIVE IsProduct(_)
IsProduct(e) ==
  \/ e.k = "b" /\ e.o = "units" /\ Plain(e.l) /\ Plain(e.r)
  \/ e.k = "b" /\ e.o = "*" /\ ((IsProduct(e.l) /\ IsProduct(e.r)) \/ (IsProduct(e.l) /\ Plain(e.r)) \/ (Plain(e.l) /\ IsProduct(e.r)))
  \/ e.k = "b" /\ e.o = "/" /\ OfSymbols(e.l) /\ OfSymbols(e.r)
OneQuantity(r) == Count(r, "units") = 0 \/ (r.k = "b" /\ r.o = "units" /\ Plain(r.l) /\ Plain(r.r))
\* zero uncertainty is none; unity units are none; zero is zero in any units
RECURSIVE Bare(_)
Bare(r) ==
  CASE r.k = "u" -> Bare(r.a)
    [] r.k = "b" -> /\ Bare(r.l) /\ Bare(r.r)
                    /\ ~(r.o = "unc" /\ r.r.k = "c" /\ r.r.r = 0)
                    /\ ~(r.o = "units" /\ ((r.r.k = "c" /\ r.r.r = 1) \/ (r.l.k = "c" /\ r.l.r = 0)))
    [] OTHER -> TRUE

UVerdict(ev) == LET v == Verdict(ev) IN
  IF v # "ok" /\ v # "vacuous" THEN v
  ELSE IF ev.op # "simplify" \/ ~Has(ev, "r") THEN v
  ELSE IF v = "ok" /\ IsProduct(ev.c) /\ ~OneQuantity(ev.r) THEN "quantities not combined"
  ELSE IF v = "ok" /\ ~Bare(ev.r) THEN "superfluous unit or uncertainty"
  ELSE v
JudgeU == LET v == UVerdict(Trace[l]) IN v = "ok" \/ Emit([l |-> l, v |-> v])
=============================================================================
