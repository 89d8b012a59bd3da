------------------------------ MODULE GenArr --------------------------------
(* Histories of operations on a pair of arrays: every single operation after every filled start, and long *)
(* random histories.                                                                                       *)
EXTENDS Arrays, Emit
CONSTANTS Len0, Rich
VARIABLES hist, ars, typ
vars == <<hist, ars, typ>>
R(a, b) == RandomElement(a..b)
DimSet(t) == CASE Rank(t) = 0 -> { <<>>, <<0>>, <<3>>, <<2, 3>>, <<3, 2>>, <<2, 0>>, <<2, 1, 3>>, <<1, 3, 1, 2>> }
               [] Rank(t) = 1 -> { <<0>>, <<1>>, <<3>>, <<5>>, <<6>>, <<7>> }
               [] Rank(t) = 2 -> { <<0, 3>>, <<2, 3>>, <<3, 2>>, <<1, 4>>, <<3, 4>>, <<4, 4>> }
               [] OTHER -> { <<2, 3, 4>>, <<2, 2, 2>>, <<3, 3, 3>>, <<1, 0, 2>>, <<3, 1, 2>>, <<2, 3, 1>> }
A0(a, v) == [a |-> a, v |-> v]
Det(i, s) == <<(((i + 1) * s) % 17) - 5, 1>>
FillAll(t, d, s, how) == [i \in 1..Size(d) |-> <<CoordsOf(d, i - 1), Det(i, s), IF Rank(t) = 0 /\ how = 1 THEN 1 ELSE how>>] \o <<>>
Fits(t, v, d) == Cap(t, v + 1) < 0 \/ Size(d) <= Cap(t, v + 1)
NewAll(t, v, d, s, how) == A0("new", v) @@ [d |-> d, f |-> IF Fits(t, v, d) THEN FillAll(t, d, s, how) ELSE <<>>]
Ops == [a : {"op"}, v : {0}, o : {"+", "-", "*", "/"}, l : {0, 1}, r : {0, 1}]
       \cup [a : {"op"}, v : {0}, o : {"+", "-", "*", "/"}, l : {0, 1}, r : {2}, s : {<<2, 1>>, <<-3, 1>>, <<1, 2>>}]
       \cup [a : {"op"}, v : {0}, o : {"+", "-", "*", "/"}, l : {2}, r : {0, 1}, s : {<<2, 1>>, <<-3, 1>>, <<1, 2>>}]
OpsOf(t) == { q \in Ops : q.o = "*" => t = "RT-RT" }
\* an address which is too short or too long for a run-time rank
BadAddr(s, v) == LET d == s[v + 1].d IN
  IF Len(d) >= 2 /\ Size(d) > 0 THEN { SubSeq([i \in 1..(Len(d) + 1) |-> 0], 1, k) : k \in {Len(d) - 1, Len(d) + 1, 1} \ {0} } ELSE {}
Singles(t, s) ==
  OpsOf(t) \cup { A0("eq", 0) } \cup { A0("copy", v) : v \in IF Pair2(t) THEN {0, 1} ELSE {} }
  \cup { NewAll(t, v, d, 3, 1) : v \in {0, 1}, d \in DimSet(t) }
  \cup { A0("resize", v) @@ [d |-> d, f |-> IF t = "RT-RT" THEN FillAll(t, d, 3, 0) ELSE <<>>] : v \in {0, 1}, d \in DimSet(t) }
  \cup { A0("push", v) @@ [x |-> <<4, 1>>] : v \in {0, 1} }
  \cup UNION { { A0("set", v) @@ [c |-> CoordsOf(s[v + 1].d, i), x |-> <<40 + i, 1>>, how |-> w] : i \in 0..(Size(s[v + 1].d) - 1), w \in {0, 1} } : v \in {0, 1} }
  \cup (IF t = "D-D" THEN UNION { { A0("addr", v) @@ [c |-> k, how |-> w] : k \in BadAddr(s, v), w \in {0, 1} } : v \in {0, 1} } ELSE {})
\* lists go to growing arrays
ListOk(t, v) == Cap(t, v + 1) < 0
RandNum(style) == IF style = 1 THEN RandomElement({<<1, 1>>, <<2, 1>>, <<-2, 1>>, <<4, 1>>, <<1, 2>>, <<-1, 4>>}) ELSE <<R(-20, 20), RandomElement({1, 1, 2, 4})>>
RECURSIVE RandFill(_, _, _, _, _)
RandFill(d, i, all, how, style) ==
  IF i = Size(d) THEN <<>>
  ELSE (IF ~all /\ R(1, 5) = 1 THEN <<>> ELSE << <<CoordsOf(d, i), RandNum(style), IF how = 2 THEN R(0, 1) ELSE how>> >>) \o RandFill(d, i + 1, all, how, style)
Rand(t, s) ==
  LET v == R(0, 1) c == R(1, 30) o == RandomElement(IF t = "RT-RT" THEN {"+", "-", "*", "/"} ELSE {"+", "-", "/"})
      d == IF R(1, 2) = 1 THEN s[2 - v].d ELSE RandomElement(DimSet(t))
      sc == RandNum(R(1, 2))
      all == t = "RT-RT" \/ R(1, 4) > 1
      a == s[v + 1] IN
  CASE c <= 5 -> A0("new", v) @@ [d |-> d, f |-> IF Fits(t, v, d) THEN RandFill(d, 0, all, R(0, 2), R(1, 2)) ELSE <<>>]
    [] c <= 7 /\ ListOk(t, v) -> LET n == IF t = "RT-RT" \/ R(1, 3) > 1 THEN Size(d) ELSE R(0, 6) IN
                                 IF n > 6 THEN A0("eq", 0) ELSE A0("newl", v) @@ [d |-> d, l |-> [i \in 1..n |-> RandNum(R(1, 2))] \o <<>>]
    [] c = 8 /\ (t = "L-L" \/ (t = "L-LF" /\ v = 0)) -> A0("newv", v) @@ [l |-> [i \in 1..R(0, 6) |-> RandNum(2)] \o <<>>]
    [] c <= 11 -> A0("resize", v) @@ [d |-> d, f |-> IF ~Fits(t, v, d) THEN <<>> ELSE IF t = "RT-RT" \/ R(1, 2) = 1 THEN RandFill(d, 0, TRUE, R(0, 2), 2) ELSE <<>>]
    [] c <= 13 -> A0("push", v) @@ [x |-> RandNum(2)]
    [] c <= 16 /\ Len(a.x) > 0 -> A0("set", v) @@ [c |-> CoordsOf(a.d, R(0, Len(a.x) - 1)), x |-> RandNum(2), how |-> R(0, 1)]
    [] c = 17 /\ t = "D-D" /\ BadAddr(s, v) # {} -> A0("addr", v) @@ [c |-> RandomElement(BadAddr(s, v)), how |-> R(0, 1)]
    [] c = 18 /\ Pair2(t) -> A0("copy", v)
    [] c <= 20 -> A0("eq", 0)
    [] c <= 25 -> [a |-> "op", v |-> 0, o |-> o, l |-> v, r |-> 1 - v]
    [] c <= 26 -> [a |-> "op", v |-> 0, o |-> o, l |-> v, r |-> v]
    [] c <= 28 -> [a |-> "op", v |-> 0, o |-> o, l |-> v, r |-> 2, s |-> sc]
    [] OTHER -> [a |-> "op", v |-> 0, o |-> o, l |-> 2, r |-> v, s |-> sc]
Init == /\ typ \in Kinds
        /\ IF Rich THEN hist = <<>> /\ ars = Start(typ)
           ELSE \E d \in DimSet(typ), e \in DimSet(typ) :
                  /\ Fits(typ, 0, d) /\ Fits(typ, 1, e)
                  /\ hist = << NewAll(typ, 0, d, 2, 0), NewAll(typ, 1, e, 5, 1) >>
                  /\ ars = Apply(typ, Apply(typ, Start(typ), hist[1]).st, hist[2]).st
Next == /\ Len(hist) < Len0 /\ typ' = typ
        /\ \E q \in IF Rich THEN {Rand(typ, ars)} ELSE Singles(typ, ars) :
             hist' = Append(hist, q) /\ ars' = Apply(typ, ars, q).st
Spec == Init /\ [][Next]_vars
Report == (Len(hist) = Len0 => Emit([op |-> "history", t |-> typ, h |-> hist])) /\ TypeOk(typ, ars) /\ Addressed(ars)
=============================================================================
