------------------------------- MODULE GenNum -------------------------------
(* Numbers: decimal texts to be read and doubles to be printed.  One step makes one number.             *)
EXTENDS Integers, Sequences, Emit, Decimal
VARIABLES cmd, sz
vars == <<cmd, sz>>
Dg == <<"0", "1", "2", "3", "4", "5", "6", "7", "8", "9">>
R(a, b) == RandomElement(a..b)
RECURSIVE RandDigits(_), NatText(_)
RandDigits(k) == IF k = 0 THEN <<>> ELSE <<Dg[R(1, 10)]>> \o RandDigits(k - 1)
NatText(k) == IF k < 10 THEN <<Dg[k + 1]>> ELSE Append(NatText(k \div 10), Dg[(k % 10) + 1])
Sign(x) == RandomElement({ <<>>, <<"+">>, <<"-">> })
Text(style) ==
  LET ip == RandDigits(CASE style = "short" -> R(1, 3) [] style = "long" -> R(1, 22) [] OTHER -> 1)
      fp == CASE style = "short" -> RandDigits(R(0, 3)) [] style = "long" -> RandDigits(R(0, 22)) [] OTHER -> RandDigits(R(0, 17))
      ex == CASE style = "short" -> R(0, 30) [] style = "long" -> R(0, 40) [] style = "huge" -> R(0, 307) [] OTHER -> R(250, 340)
      sg == CASE style = "tiny" -> <<"-">> [] style = "huge" -> RandomElement({ <<>>, <<"+">> }) [] OTHER -> Sign(style)
      dot == RandomElement({TRUE, FALSE})
      exq == IF style \in {"short", "long"} THEN RandomElement({TRUE, FALSE}) ELSE TRUE
  IN ip \o (IF dot THEN <<".">> \o fp ELSE <<>>)
        \o (IF exq THEN <<RandomElement({"e", "E"})>> \o sg \o NatText(ex) ELSE <<>>)
\* numerals at, just above and just below the middle of two neighbouring doubles
RECURSIVE MulPow5(_, _), LimbText(_, _), Zs(_)
MulPow5(a, n) == IF n = 0 THEN a ELSE IF n >= 5 THEN MulPow5(MulSmall(a, 3125), n - 5) ELSE MulPow5(MulSmall(a, 5), n - 1)
Dig4(k) == <<Dg[(k \div 1000) + 1], Dg[((k \div 100) % 10) + 1], Dg[((k \div 10) % 10) + 1], Dg[(k % 10) + 1]>>
LimbText(a, i) == IF i = 0 THEN <<>> ELSE Dig4(a[i]) \o LimbText(a, i - 1)
Zs(k) == IF k = 0 THEN <<>> ELSE <<"0">> \o Zs(k - 1)
Middle(m, x) ==
  LET a == AddSmall(MulSmall(Mant(m[1], m[2]), 2), 1)
      b == IF x >= 0 THEN MulPow2(a, x) ELSE MulPow5(a, -x)
      t == LimbText(b, Len(b))
      u == IF x < 0 /\ Len(t) <= -x THEN Zs(1 - x - Len(t)) \o t ELSE t
  IN [i |-> IF x < 0 THEN SubSeq(u, 1, Len(u) + x) ELSE u, f |-> IF x < 0 THEN SubSeq(u, Len(u) + x + 1, Len(u)) ELSE <<>>]
HalfText(m, x) ==
  LET q == Middle(m, x)
      way == R(1, 3)
      more == Zs(R(0, 6)) \o <<"1">>
      less == SubSeq(q.f, 1, Len(q.f) - 1) \o <<"4", "9", "9">>        \* a fraction of a middle ends in 5
  IN q.i \o (IF way = 1 THEN (IF x < 0 THEN <<".">> \o q.f ELSE <<>>)
            ELSE IF way = 2 \/ x >= 0 THEN <<".">> \o q.f \o more
            ELSE <<".">> \o less)
Edge == { <<67108864, 0>>, <<134217727, 67108863>>, <<67108864, 1>>, <<100000000, 0>>, <<134217727, 0>> }
Bits(x) == LET e == RandomElement({ R(-1074, 971), R(-80, 20), R(-60, -45) })
            m == RandomElement({ <<R(67108864, 134217727), R(0, 67108863)>>, <<R(67108864, 134217727), R(0, 67108863)>>, RandomElement(Edge) })
        IN IF R(1, 20) = 1 THEN [op |-> "numprint", hi |-> R(0, 67108863), lo |-> R(0, 67108863), x |-> -1074]
           ELSE [op |-> "numprint", hi |-> m[1], lo |-> m[2], x |-> e]
Init == cmd = [op |-> "none"] /\ sz = 0
Next == sz' = sz + 1
        /\ \/ \E s \in {"short", "long", "huge", "tiny"} : cmd' = [op |-> "num", t |-> Text(s)]
           \/ \E s \in {1, 2} : cmd' = [op |-> "num", t |-> HalfText(RandomElement({ <<R(67108864, 134217727), R(0, 67108863)>>, <<R(67108864, 134217727), R(0, 67108863)>>, RandomElement(Edge) }), RandomElement({R(-60, 12), R(-56, -46)}))]
           \/ cmd' = Bits(sz)
Report == cmd.op # "none" => Emit(cmd)
=============================================================================
