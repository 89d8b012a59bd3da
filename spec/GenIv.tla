------------------------------- MODULE GenIv --------------------------------
(* Expressions to evaluate on intervals: those of GenExpr's profile "iv" whose powers have constant      *)
(* exponents (fractional ones only outermost), and polynomials from their coefficients.                  *)
EXTENDS GenExpr
RECURSIVE HasX(_), Fits(_, _)
HasX(e) == CASE e.k = "v" -> TRUE [] e.k = "c" -> FALSE [] e.k = "u" -> HasX(e.a) [] OTHER -> HasX(e.l) \/ HasX(e.r)
Fits(e, top) ==
  CASE e.k \in {"c", "v"} -> TRUE
    [] e.k = "u" -> HasX(e.a) /\ Fits(e.a, FALSE)
    [] e.o = "^" -> HasX(e.l) /\ e.r.k = "c" /\ (e.r.d = 1 \/ top) /\ Fits(e.l, FALSE)
    [] OTHER -> HasX(e) /\ Fits(e.l, FALSE) /\ Fits(e.r, FALSE)
Frac(e) == e.k = "b" /\ e.o = "^" /\ e.r.d # 1
IvCalls(e) == { [op |-> "sub", e |-> e] } \cup (IF Frac(e) \/ e.k = "v" THEN {} ELSE { [op |-> "deriv", e |-> e] })
ReportIv == (Len(stk) = 1 /\ (Exact => sz = MaxN) /\ HasX(stk[1]) /\ Fits(stk[1], TRUE)) => \A c \in IvCalls(stk[1]) : Emit(c)

\* polynomials
Coefs == { C(0, 1), C(-3, 1), C(1, 2), C(2, 1) }
RECURSIVE Horner(_)
Horner(cs) == IF Len(cs) = 1 THEN cs[1] ELSE Bin("+", cs[1], Bin("*", V("x"), Horner(Tail(cs))))
Seqs(n) == UNION { [1..k -> Coefs] : k \in 1..n }
ReportPoly == (stk = <<>> /\ sz = 0) => \A cs \in Seqs(4) : Emit([op |-> "poly", cs |-> cs, e |-> Horner(cs)])
\* the intervals, for the driver
IV == INSTANCE Interval
ReportTable == (stk = <<>> /\ sz = 0) => Emit([op |-> "table", t |-> IV!Ivs])
=============================================================================
