-------------------------------- MODULE Poly --------------------------------
(* Univariate polynomials over GF(P): sequences of residues, lowest order first; trailing zeros are      *)
(* immaterial.  Division is by polynomials with invertible leading coefficient.                          *)
EXTENDS Field
MaxI(a, b) == IF a > b THEN a ELSE b
Co(f, i) == IF i <= Len(f) THEN f[i] ELSE 0                  \* coefficient of x^(i-1)
Same(f, g) == \A i \in 1..MaxI(Len(f), Len(g)) : Co(f, i) = Co(g, i)
QAdd(f, g) == [i \in 1..MaxI(Len(f), Len(g)) |-> FAdd(Co(f, i), Co(g, i))]
QSub(f, g) == [i \in 1..MaxI(Len(f), Len(g)) |-> FSub(Co(f, i), Co(g, i))]
QNeg(f) == [i \in 1..Len(f) |-> FNeg(f[i])]
QScale(c, f) == [i \in 1..Len(f) |-> FMul(c, f[i])]
RECURSIVE SumTo(_, _, _, _)
SumTo(f, g, k, j) == IF j > k THEN 0 ELSE (Co(f, j) * Co(g, k + 1 - j) + SumTo(f, g, k, j + 1)) % P
QMul(f, g) == [k \in 1..(Len(f) + Len(g) - 1) |-> SumTo(f, g, k, 1)]
RECURSIVE QPow(_, _)
QPow(f, n) == IF n = 0 THEN <<1>> ELSE QMul(f, QPow(f, n - 1))
RECURSIVE HornerFrom(_, _, _)
HornerFrom(f, x, i) == IF i > Len(f) THEN 0 ELSE FAdd(f[i], FMul(x, HornerFrom(f, x, i + 1)))
QEval(f, x) == HornerFrom(f, x, 1)
QDeriv(f) == IF Len(f) <= 1 THEN <<0>> ELSE [i \in 1..(Len(f) - 1) |-> FMul(i % P, f[i + 1])]
RECURSIVE QDerivN(_, _)
QDerivN(f, n) == IF n = 0 THEN f ELSE QDerivN(QDeriv(f), n - 1)
RECURSIVE QComp(_, _, _)
QComp(f, g, i) == IF i > Len(f) THEN <<0>> ELSE QAdd(<<f[i]>>, QMul(g, QComp(f, g, i + 1)))
Compose(f, g) == QComp(f, g, 1)
Shifted(f, t) == Compose(f, <<t, 1>>)
Reversed(f) == [i \in 1..Len(f) |-> f[Len(f) + 1 - i]]
Tops(f) == { i \in 1..Len(f) : f[i] # 0 }
Deg(f) == IF Tops(f) = {} THEN -1 ELSE (CHOOSE i \in Tops(f) : \A j \in Tops(f) : j <= i) - 1
=============================================================================
