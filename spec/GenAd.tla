------------------------------- MODULE GenAd --------------------------------
(* Calls of automatic differentiation.  Profile "ads" favours functions of arguments that vanish (or are   *)
(* one, for ln and powers) at the point, with coefficients divisible by 720: every Taylor coefficient is    *)
(* then a whole number and the floating-point computation exact, so the comparison is too.                  *)
EXTENDS GenExpr
CONSTANT Orders
AdPoints == { <<0, 1>>, <<1, 1>>, <<-2, 1>>, <<1, 2>> }
ReportAd == (Len(stk) = 1 /\ (Exact => sz = MaxN)) =>
              \A p \in AdPoints, n \in Orders : Emit([op |-> "ad", e |-> stk[1], x |-> "x", n |-> p[1], d |-> p[2], nd |-> n])
=============================================================================
