------------------------------ MODULE GenPoly -------------------------------
(* The space of polynomials and pairs of polynomials: coefficients are appended one by one; every        *)
(* reachable pair is put through every operation of the selected family.                                 *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Emit
CONSTANTS Fam,        \* "ring1", "ring2", "div", "deflate", "trans", "mobius"
          CoSet,      \* which coefficients
          MaxF, MaxG  \* numbers of coefficients
VARIABLES f, g, ph
vars == <<f, g, ph>>
Q(n, d) == <<n, d>>
Cos == CASE CoSet = 1 -> { Q(0, 1), Q(1, 1), Q(-2, 1) }
         [] CoSet = 2 -> { Q(0, 1), Q(1, 1), Q(-1, 1), Q(2, 1), Q(-3, 1), Q(1, 2) }
         [] CoSet = 3 -> { Q(0, 1), Q(1, 1), Q(-1, 1), Q(2, 1), Q(-3, 1), Q(1, 2), Q(-5, 4), Q(7, 1), Q(-12, 1) }
         [] CoSet = 4 -> { Q(0, 1), Q(1, 1), Q(-1, 1), Q(2, 1), Q(-3, 1) }
TwoPoly == Fam \in {"ring2", "div", "inner", "sring2", "sdiv"}
Init == f = <<>> /\ g = <<>> /\ ph = 0
Next == \/ /\ ph = 0 /\ Len(f) < MaxF /\ \E c \in Cos : f' = Append(f, c)
           /\ UNCHANGED <<g, ph>>
        \/ /\ ph = 0 /\ Len(f) >= 1 /\ TwoPoly /\ ph' = 1 /\ UNCHANGED <<f, g>>
        \/ /\ ph = 1 /\ Len(g) < MaxG /\ \E c \in Cos : g' = Append(g, c)
           /\ UNCHANGED <<f, ph>>
Spec == Init /\ [][Next]_vars

IsInt(h) == \A i \in 1..Len(h) : h[i][2] = 1
Ks == { Q(0, 1), Q(2, 1), Q(-1, 2), Q(-4, 1), Q(3, 1) }
PowersOf2 == { Q(2, 1), Q(-1, 2), Q(-4, 1), Q(1, 1) }
One(o) == Emit([op |-> o, f |-> f])
OneK(o, ks) == \A k \in ks : Emit([op |-> o, f |-> f, k |-> k])
Two(o) == Emit([op |-> o, f |-> f, g |-> g])
Ring1 ==
  /\ \A o \in {"neg", "id", "xmul", "mulx", "deriv", "derivy", "rename", "eval0", "infp", "infm", "up", "orderup", "orderdown", "range", "iter", "print"} : One(o)
  /\ Len(f) <= 4 => One("pow2") /\ One("pow3")
  /\ \A o \in {"lsmul", "rsmul", "lsadd", "rsadd", "lssub", "rssub", "suby", "eval", "taylor", "taylor1"} : OneK(o, Ks)
  /\ OneK("sdiv", PowersOf2)
  /\ OneK("evalf", { k \in Ks : k[2] = 1 })
  /\ IsInt(f) => OneK("evali", Ks)
Ring2 ==
  /\ Two("add") /\ Two("sub") /\ Two("mul")
  /\ IsInt(f) => Two("imul") /\ Two("isub")
  /\ IsInt(g) => Two("iadd")
  /\ (Len(f) <= 4 /\ Len(g) <= 3) => Two("compose")
  /\ Len(f) = Len(g) => Two("eqp")
\* roots to deflate: f is taken for the cofactor, the dividend is f*(x - k)
RECURSIVE MulLin(_, _, _, _)
MulLin(h, n, d, i) == IF i > Len(h) + 1 THEN <<>>
  ELSE LET lo == IF i <= Len(h) THEN h[i] ELSE Q(0, 1)
           up == IF i > 1 THEN h[i - 1] ELSE Q(0, 1)
       IN << Q(up[1] * d * lo[2] - n * lo[1] * up[2], up[2] * d * lo[2]) >> \o MulLin(h, n, d, i + 1)
Deflate ==
  /\ \A k \in { Q(1, 1), Q(-1, 1), Q(2, 1), Q(-3, 1), Q(1, 2), Q(-4, 1), Q(5, 1), Q(3, 2), Q(0, 1), Q(-100, 1) } :
       Emit([op |-> "deflate", f |-> MulLin(f, k[1], k[2], 1), k |-> k, c |-> f])
  /\ Emit([op |-> "deflate0", f |-> <<Q(0, 1)>> \o f, k |-> Q(0, 1), c |-> f])
Trans ==
  /\ \A o \in {"shift1", "reflect", "invshift", "reflect2"} : One(o)
  /\ \A o \in {"shift", "scale", "back"} : OneK(o, Ks \cup {Q(1, 1), Q(-1, 1)})
  /\ OneK("unscale", PowersOf2)
St(w, k) == [w |-> w, k |-> k]
Steps == { St("inv", Q(0, 1)), St("shift", Q(1, 1)), St("shift", Q(-3, 1)), St("scale", Q(2, 1)), St("scale", Q(3, 1)), St("scale", Q(-1, 2)) }
Mobius == \A a \in Steps, b \in Steps : /\ Emit([op |-> "mobius", f |-> f, ops |-> <<a, b>>])
                                        /\ Emit([op |-> "mobius", f |-> f, ops |-> <<b, a, b, St("inv", Q(0, 1))>>])
\* the same polynomials with the variable measured in other units (a power of two, far from one) and
\* with all coefficients scaled: nothing but the exponents may change
Exps == {-70, 55, 130}
Sc(h, e, y) == [i \in 1..Len(h) |-> <<h[i][1], h[i][2], e * (i - 1) + y>>]
ScK(k, e) == <<k[1], k[2], -e>>
SRing1 == \A e \in Exps, y \in {0, -40} :
  /\ \A o \in {"neg", "id", "xmul", "deriv", "eval0", "infp", "infm"} : Emit([op |-> o, f |-> Sc(f, e, y)])
  /\ \A o \in {"lsmul", "rsmul"}, k \in Ks : Emit([op |-> o, f |-> Sc(f, e, y), k |-> k])
  /\ \A o \in {"eval", "taylor", "taylor1"}, k \in Ks : Emit([op |-> o, f |-> Sc(f, e, y), k |-> ScK(k, e)])
SRing2 == \A e \in Exps : \A o \in {"add", "sub", "mul", "eqp"} : (o = "eqp" => Len(f) = Len(g)) => Emit([op |-> o, f |-> Sc(f, e, 0), g |-> Sc(g, e, 0)])
SDiv == \A e \in Exps : Emit([op |-> "div", f |-> Sc(f, e, 0), g |-> Sc(g, e, 20)])
SDeflate == \A e \in Exps, k \in { Q(1, 1), Q(-1, 1), Q(2, 1), Q(-3, 1), Q(1, 2), Q(-4, 1), Q(5, 1), Q(3, 2) } :
  Emit([op |-> "deflate", f |-> Sc(MulLin(f, k[1], k[2], 1), e, -e), k |-> ScK(k, e), c |-> Sc(f, e, 0)])
STrans == \A e \in Exps, y \in {0, -40}, k \in Ks \cup {Q(1, 1), Q(-1, 1)} :
  /\ \A o \in {"shift", "back"} : Emit([op |-> o, f |-> Sc(f, e, y), k |-> ScK(k, e)])
  /\ \A o \in {"scale"} : Emit([op |-> o, f |-> Sc(f, e, y), k |-> ScK(k, e)])
  /\ Emit([op |-> "reflect", f |-> Sc(f, e, y)])
Report ==
  /\ (Fam = "sring1" /\ Len(f) >= 1) => SRing1
  /\ (Fam = "sring2" /\ Len(g) >= 1) => SRing2
  /\ (Fam = "sdiv" /\ Len(g) >= 1 /\ Len(g) < Len(f)) => SDiv
  /\ (Fam = "sdeflate" /\ Len(f) >= 1) => SDeflate
  /\ (Fam = "strans" /\ Len(f) >= 2) => STrans
  /\ (Fam = "ring1" /\ Len(f) >= 1) => Ring1
  /\ (Fam = "ring2" /\ Len(g) >= 1) => Ring2
  /\ (Fam = "div" /\ Len(g) >= 1 /\ Len(g) < Len(f)) => Two("div")
  /\ (Fam = "deflate" /\ Len(f) >= 1) => Deflate
  /\ (Fam = "trans" /\ Len(f) >= 2) => Trans
  /\ (Fam = "mobius" /\ Len(f) >= 2) => Mobius
=============================================================================
