------------------------------ MODULE GenRoots ------------------------------
(* Root configurations: real roots are added in increasing order, then complex pairs, then a leading     *)
(* factor, zero leading coefficients and powers of two for the variable and the value.                   *)
EXTENDS Roots, TLC, Emit
CONSTANTS Task,      \* "roots" (C17) or "counts" (C18)
          Rs,        \* which grid of real roots
          MaxR, MaxC, MaxO
VARIABLES want, s, R, C, ph, lead, pad, e, g
vars == <<want, s, R, C, ph, lead, pad, e, g>>
Grid == CASE Rs = 1 -> { -6, -3, -1, 0, 1, 2, 4, 6 }
          [] Rs = 2 -> -24..24
          [] Rs = 3 -> { -100, -50, -40, -21, -9, -8, -5, -3, -2, -1, 0, 1, 2, 3, 4, 6, 10, 11, 25, 60, 90, 200, 1000 }
          [] Rs = 4 -> -9..9
          [] Rs = 5 -> -20..20
Pairs == IF Rs = 1 THEN { <<0, 1>>, <<-2, 1>>, <<3, 2>> } ELSE { <<p, q>> : p \in { -20, -7, -3, 0, 1, 2, 5, 12 }, q \in { 1, 2, 3, 9 } }
Scales == IF Rs = 1 THEN { 0, 5 } ELSE IF Rs = 5 THEN { -300, -250, -160, -120, 120, 128, 160, 250, 300, 325 } ELSE IF Rs = 4 THEN { -70, -60, 45, 60, 80 } ELSE { -40, -9, -3, -1, 0, 1, 2, 7, 20, 33 }
Gains == IF Rs = 1 THEN { 0 } ELSE { -30, 0, 0, 3, 40 }
Leads == IF Rs = 1 THEN { 1, -2 } ELSE { 1, -1, 3, -2, 5, -7 }
Deg == Len(R) + 2 * Len(C)
Init == /\ want \in { w \in (0..MaxR) \X (0..MaxC) : w[1] + 2 * w[2] >= 1 /\ w[1] + 2 * w[2] <= MaxO }
        /\ s \in (IF Rs = 1 THEN {1} ELSE {1, 2, 4}) /\ R = <<>> /\ C = <<>> /\ ph = 0 /\ lead = 1 /\ pad = 0 /\ e = 0 /\ g = 0
Next == \/ /\ Len(R) < want[1] /\ \E r \in Grid : (IF R = <<>> THEN TRUE ELSE r > R[Len(R)] /\ (Rs \in {2, 4} => r <= R[Len(R)] + 7)) /\ R' = Append(R, r)
           /\ UNCHANGED <<want, s, C, ph, lead, pad, e, g>>
        \/ /\ Len(R) = want[1] /\ Len(C) < want[2] /\ \E c \in Pairs : C' = Append(C, c)
           /\ UNCHANGED <<want, s, R, ph, lead, pad, e, g>>
        \/ /\ ph = 0 /\ Len(R) = want[1] /\ Len(C) = want[2] /\ ph' = 1
           /\ lead' \in Leads /\ pad' \in 0..(IF MaxO - Deg > 2 THEN 2 ELSE MaxO - Deg)
           /\ UNCHANGED <<want, s, R, C, e, g>>
        \/ /\ ph = 1 /\ ph' = 2 /\ e' \in Scales /\ g' \in Gains
           /\ UNCHANGED <<want, s, R, C, lead, pad>>
Done == ph = 2 /\ ph' = 3 /\ UNCHANGED <<want, s, R, C, lead, pad, e, g>>
Spec == Init /\ [][Next \/ Done]_vars
\* complex pairs must be separated from one another and from double real roots
Sep == WellSeparated(R, C) /\ \A i \in 1..Len(C), j \in 1..Len(C) : i # j => C[i] # C[j]
Cuts == { -1000000, -13, -7, -4, -2, -1, 0, 1, 2, 3, 4, 8, 9, 12, 13, 21, 1000000 }   \* interval ends, in half units
\* small enough for the checker to count sign variations of the transformed polynomials
Small == Deg <= 5 /\ (\A i \in 1..Len(R) : Ab(R[i]) <= 9) /\ (\A i \in 1..Len(C) : Ab(C[i][1]) <= 7 /\ C[i][2] <= 3)
F == PolyOf(s, R, C, lead, pad)
Base == [op |-> "", s |-> s, R |-> R, C |-> C, lead |-> lead, pad |-> pad, e |-> e, g |-> g]
IvSeq == << <<-1000000, 1000000>>, <<-1000000, 0>>, <<0, 1000000>>, <<-13, 7>>, <<-7, 1>>, <<0, 1>>, <<0, 2>>, <<1, 9>>, <<2, 8>>, <<-4, -1>>, <<-2, 2>>, <<3, 4>>, <<8, 21>>, <<-1, 12>>, <<4, 1000000>>, <<-1000000, -5>>, <<-12, 12>>, <<6, 24>> >>
AgSeq == << <<0, 2>>, <<0, 4>>, <<2, 4>>, <<-4, 2>>, <<-12, -2>>, <<2, 8>>, <<6, 10>> >>     \* even: whole units
\* for whole-unit intervals of the scaled variable the grid factor s has to be one
Report == ph # 3 \/ ~Sep \/
  IF Task = "roots" THEN /\ Emit([Base EXCEPT !.op = "roots"])
                         /\ (s = 1 /\ e = 0 /\ Deg >= 3) => Emit([op |-> "factor", t |-> Factors(R, C)] @@ Base)
  ELSE /\ Emit([op |-> "sturm", iv |-> IvSeq] @@ Base)
       /\ Emit([op |-> "bounds"] @@ Base)
       /\ (s = 1 /\ e = 0 /\ Small /\ Deg + pad <= 5) => Emit([op |-> "count", iv |-> AgSeq, f |-> F] @@ Base)
       /\ (0 \notin {R[i] : i \in 1..Len(R)} /\ pad = 0 /\ Deg >= 2) => Emit([op |-> "isol"] @@ Base)
=============================================================================
