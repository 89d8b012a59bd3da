----------------------------- MODULE GenSolver ------------------------------
(* Adversarial functions for the iterative solvers: the answers at the points a solver asks for are      *)
(* chosen step by step; a point asked for twice gets the same answer twice; once the script is used up   *)
(* the function is x - tail.                                                                             *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Emit
CONSTANTS Fam, MaxS, Rich
VARIABLES script, m, lo, hi, x0, it, dg, tail, ph
vars == <<script, m, lo, hi, x0, it, dg, tail, ph>>
Q(n, d) == <<n, d>>
Fs == IF Rich THEN { Q(s * n, d) : s \in {-1, 1}, n \in {1, 2, 3, 8, 20}, d \in {1, 4, 16} } \cup {Q(0, 1)} ELSE { Q(-1, 1), Q(1, 2), Q(0, 1) }
Ds == IF Rich THEN { Q(s * n, d) : s \in {-1, 1}, n \in {1, 2, 8}, d \in {1, 4} } \cup { Q(0, 1) } ELSE { Q(0, 1), Q(1, 1), Q(-1, 4) }
Ss == IF Rich THEN { Q(0, 1), Q(1, 1), Q(-8, 1), Q(3, 2) } ELSE { Q(0, 1) }
Los == { Q(-8, 1), Q(-1, 1), Q(0, 1), Q(1, 4), Q(3, 1), Q(20, 1) }
His == { Q(-2, 1), Q(0, 1), Q(2, 1), Q(4, 1), Q(9, 1), Q(22, 1) }
Inside == { Q(-7, 1), Q(-1, 2), Q(1, 2), Q(1, 1), Q(3, 2), Q(7, 2), Q(5, 1), Q(21, 1) }
Lt(a, b) == a[1] * b[2] < b[1] * a[2]
Init == /\ script = <<>> /\ ph = 0 /\ m \in (IF Fam = "bisection" THEN {"bisection"} ELSE {"newton", "halley"})
        /\ lo \in (IF Rich THEN Los \cup { Q(-1, 0) } ELSE { Q(-1, 1), Q(1, 4) }) /\ hi \in (IF Rich THEN His \cup { Q(1, 0) } ELSE { Q(4, 1) })
        /\ it \in (IF Rich THEN {0, 1, 2, 3, 5, 12} ELSE {0, 3}) /\ dg \in (IF Rich THEN {4, 8, 12, 26} ELSE {4})
        /\ x0 \in (IF Rich THEN Inside ELSE { Q(1, 2), Q(3, 2), Q(17, 8) }) /\ tail \in (IF Rich THEN { Q(1, 4), Q(-1, 1), Q(3, 1), Q(7, 2), Q(21, 1) } ELSE { Q(3, 1) })
        /\ (m # "bisection" => Lt(lo, x0) /\ Lt(x0, hi))
Vals == IF Fam = "bisection" THEN { <<f, Q(1, 1), Q(0, 1)>> : f \in Fs }
        ELSE { <<f, d, h>> : f \in Fs, d \in Ds, h \in Ss }
Odd == IF Rich /\ Fam # "bisection" THEN { <<Q(1, 1), Q(0, 0), Q(0, 1)>>, <<Q(-2, 1), Q(1, 0), Q(1, 1)>>, <<Q(1, 2), Q(1, 1), Q(0, 0)>> } ELSE {}
Next == \/ ph = 0 /\ Len(script) < MaxS /\ \E v \in IF ~Rich THEN Vals ELSE IF Odd # {} /\ RandomElement(1..40) = 1 THEN {RandomElement(Odd)} ELSE { << RandomElement(Fs), IF Fam = "bisection" THEN Q(1, 1) ELSE RandomElement(Ds), RandomElement(Ss) >> } : script' = Append(script, v) /\ UNCHANGED <<m, lo, hi, x0, it, dg, tail, ph>>
        \/ ph = 0 /\ (Len(script) = MaxS \/ ~Rich) /\ ph' = 1 /\ UNCHANGED <<script, m, lo, hi, x0, it, dg, tail>>
Spec == Init /\ [][Next]_vars
Steps == /\ \A mm \in {"newton", "halley", "schroeder"}, f \in { Q(1, 1), Q(-3, 1), Q(1, 2), Q(6, 1) }, d \in { Q(1, 1), Q(-2, 1), Q(4, 1), Q(1, 4), Q(0, 1) }, h \in { Q(0, 1), Q(1, 1), Q(-2, 1), Q(6, 1) } :
              \A xx \in { Q(0, 1), Q(5, 2) } : Emit([op |-> "step", m |-> mm, v |-> <<f, d, h>>, x |-> xx])
         /\ \A a \in Los, b \in His, v \in { <<p, q, r>> : p \in {-2, 1}, q \in {-1, 3}, r \in {-5, 0, 7} }, g \in {2, 4, 30} :
              Emit([op |-> "bstep", lo |-> a, hi |-> b, v |-> v, x |-> IF Lt(a, b) THEN Q(a[1] * b[2] + b[1] * a[2], 2 * a[2] * b[2]) ELSE a, dg |-> g])
Report == (ph = 1 => Emit([op |-> "solve", m |-> m, lo |-> lo, hi |-> hi, x0 |-> x0, it |-> it, dg |-> dg, tail |-> tail, script |-> script]))
          /\ (Fam = "steps" => Steps)
\* random data for the evaluation error bound: 53-bit coefficients, 12-bit arguments
R(a, b) == RandomElement(a..b)
PInit == /\ script = <<>> /\ ph = 0 /\ m = "" /\ lo = "" /\ hi = "" /\ x0 = "" /\ it = 0 /\ dg = 0 /\ tail = ""
PNext == /\ ph < MaxS /\ ph' = ph + 1
         /\ script' = IF ph' % 2 = 1
              THEN [op |-> "prec", f |-> [i \in 1..R(1, 5) |-> <<R(-8388607, 8388607), R(0, 1073741823), R(-4, 4) - 50>>], x |-> <<R(-4095, 4095), R(-14, -8)>>]
              ELSE [op |-> "digits", a |-> <<2 * R(-20, 20) + 1, R(-30, 30)>>, b |-> <<R(-1, 1) * (2 * R(-20, 20) + 1), R(-30, 30)>>]
         /\ UNCHANGED <<m, lo, hi, x0, it, dg, tail>>
PSpec == PInit /\ [][PNext]_vars
PReport == ph = 0 \/ Emit(script)
=============================================================================
