------------------------------- MODULE GenEq --------------------------------
(* Pairs of expressions: every pair of small expressions, and every expression beside its near misses    *)
(* (one operator, leaf, operand order or dictionary order changed) and beside a second copy of itself.    *)
EXTENDS GenExpr

SwapSeq(s) == [i \in 1..Len(s) |-> s[Len(s) + 1 - i]]
LeafAlt(e) == CASE e.k = "c" -> { C(e.n + 1, e.d), C(e.n, e.d * 2), C(-e.n, e.d), V("x") }
                [] e.k = "v" -> { V("y"), V("w"), C(1, 1) }
OtherUn(o) == { "sin", "cos", "exp", "ln", "abs", "arb", "neg" } \ {o}
OtherBin(o) == { "+", "-", "*", "/", "^", "=", "idx", "units", "unc" } \ {o}

RECURSIVE Variants(_)
Variants(e) ==
  CASE e.k \in {"c", "v"} -> LeafAlt(e) \cup { Un("neg", e), Arr(<<e>>) }
    [] e.k = "u" -> { Un(o, e.a) : o \in OtherUn(e.o) } \cup { Un(e.o, v) : v \in Variants(e.a) } \cup { e.a }
    [] e.k = "b" -> { Bin(o, e.l, e.r) : o \in OtherBin(e.o) } \cup { Bin(e.o, e.r, e.l) }
                    \cup { Bin(e.o, v, e.r) : v \in Variants(e.l) } \cup { Bin(e.o, e.l, v) : v \in Variants(e.r) } \cup {e.l, e.r}
    [] e.k = "arr" -> { Arr(SwapSeq(e.x)), Arr(Append(e.x, C(0, 1))) }
                      \cup (IF e.x = <<>> THEN {} ELSE { Arr(SubSeq(e.x, 1, Len(e.x) - 1)) })
                      \cup UNION { { Arr([e.x EXCEPT ![i] = v]) : v \in Variants(e.x[i]) } : i \in 1..Len(e.x) }
    [] e.k = "dict" -> { [k |-> "dict", m |-> SwapSeq(e.m)], [k |-> "dict", m |-> e.m \o e.m], [k |-> "dict", m |-> <<<<V("w"), C(0, 1)>>>> \o e.m] }
                       \* the same dictionary filled in another order, with values overwritten on the way
                       \cup (IF e.m = <<>> THEN {} ELSE { [k |-> "dict", m |-> << <<e.m[Len(e.m)][1], V("w")>> >> \o e.m],
                                                          [k |-> "dict", m |-> SubSeq(e.m, 2, Len(e.m))] })
                       \cup UNION { { [k |-> "dict", m |-> [e.m EXCEPT ![i] = <<e.m[i][1], v>>]] : v \in Variants(e.m[i][2]) } : i \in 1..Len(e.m) }
EqCmd(a, b) == Emit([op |-> "eq", a |-> a, b |-> b])
\* many-keyed dictionaries in two orders of insertion
Keys6 == <<"x", "y", "z", "w", "a", "b">>
Rot(s, i) == SubSeq(s, i + 1, Len(s)) \o SubSeq(s, 1, i)
BigDict(ks, e) == [k |-> "dict", m |-> [i \in 1..Len(ks) |-> <<V(ks[i]), IF ks[i] = "x" THEN e ELSE V(ks[i])>>]]
ReportVar == (Len(stk) = 1 /\ (Exact => sz = MaxN)) =>
  /\ EqCmd(stk[1], stk[1])
  /\ \A v \in Variants(stk[1]) : EqCmd(stk[1], v)
  /\ sz <= 2 => /\ \A i \in 0..5, j \in 0..5 : EqCmd(BigDict(Rot(Keys6, i), stk[1]), BigDict(Rot(SwapSeq(Keys6), j), stk[1]))
                /\ \A i \in 0..5 : EqCmd(BigDict(Rot(Keys6, i), stk[1]), BigDict(Rot(Keys6, 5 - i), V("w")))
ReportPair == Len(stk) = 2 => EqCmd(stk[1], stk[2])
=============================================================================
