----------------------------- MODULE TraceText ------------------------------
(* Conformance of the parser and the printer with the formula language.                                 *)
EXTENDS Sem, Syntax, Decimal, Emit, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
Chunk == 25
VARIABLE l
Init == l \in { i \in 1..Len(Trace) : (i - 1) % Chunk = 0 }
Next == l % Chunk # 0 /\ l < Len(Trace) /\ l' = l + 1
Spec == Init /\ [][Next]_l

Has(ev, f) == f \in DOMAIN ev
Points == 1..3
Known(e) == Vars(e) \subseteq VarNames
At(e, i) == Eval(e, Env(i, "none"))
Same(e, f) == \A i \in Points : Agree("m", At(e, i), At(f, i))

\* reading a text: ev.t the text, ev.r the expression read, ev.eq whether the library finds it equal to the tree
\* the specification expects, ev.wexc whether building that tree itself is an error of the library
ReadVerdict(ev) ==
  LET e == Parse(ev.t) IN
  CASE Has(ev, "crash") \/ Has(ev, "hang") -> "crash"
    [] Has(ev, "exc") /\ ev.exc # "stator" -> "foreign exception"
    [] e = NoParse -> IF Has(ev, "exc") THEN "ok" ELSE "malformed text accepted"
    [] Has(ev, "wexc") -> IF Has(ev, "exc") THEN "error" ELSE "error not reported"
    [] Has(ev, "exc") -> "formula refused"
    [] ev.eq # 1 -> IF HasKind(ev.r, {"nan"}) /\ ev.r = ev.w THEN "ok" ELSE "read differently"   \* NaN equals nothing
    [] ev.fi = 0 /\ Known(e) /\ ~HasOp(e, {"units", "idx"}) /\ ~SymArrayMix(e) /\ ~Same(e, ev.r) -> "read with another value"
    [] OTHER -> "ok"

\* printing: ev.c the tree, ev.s plain text, ev.f fully parenthesised text, ev.l LaTeX; ev.r, ev.rf the expressions read
\* back from the two texts
TextOk(e, t) == LET p == Parse(t) IN p # NoParse /\ Same(e, p) /\ Vars(p) = Vars(e)
MayFail(ev) == HasOp(ev.c, {"idx"}) \/ \E i \in Points : Mismatch(At(ev.c, i))
BackOk(ev, r) == Same(ev.c, r)
PrintVerdict(ev) ==
  CASE Has(ev, "crash") \/ Has(ev, "hang") -> "crash"
    [] Has(ev, "exc") -> "unexpected error"
    [] ~TextOk(ev.c, ev.s) -> "printed with another meaning"
    [] ~TextOk(ev.c, ev.f) -> "fully parenthesised form has another meaning"
    [] ~LatexOk(ev.l) -> "LaTeX is unbalanced"
    [] Has(ev, "bexc") -> IF MayFail(ev) THEN "error" ELSE "printed text is refused"
    [] ev.fi = 0 /\ ~SymArrayMix(ev.c) /\ ~BackOk(ev, ev.r) -> "printed text reads back differently"
    [] ev.fi = 0 /\ ~SymArrayMix(ev.c) /\ ~BackOk(ev, ev.rf) -> "fully parenthesised text reads back differently"
    [] ev.fi = 1 -> "rounded"
    [] OTHER -> "ok"

\* numbers: the text as digits and exponent; the double read is the nearest one
RECURSIVE DigitVals(_, _, _)
DigitVals(t, i, acc) == IF i > Len(t) THEN acc ELSE DigitVals(t, i + 1, IF IsDigit(t[i]) THEN Append(acc, DigitVal[t[i]]) ELSE acc)
RECURSIVE DigitChars(_, _)
DigitChars(t, i) == IF i > Len(t) THEN <<>> ELSE (IF IsDigit(t[i]) THEN <<t[i]>> ELSE <<>>) \o DigitChars(t, i + 1)
SplitNum(t) ==
  LET es == { i \in 1..Len(t) : t[i] \in {"e", "E"} }
      en == IF es = {} THEN Len(t) + 1 ELSE CHOOSE i \in es : TRUE
      ds == { i \in 1..(en - 1) : t[i] = "." }
      frac == IF ds = {} THEN 0 ELSE en - 1 - (CHOOSE i \in ds : TRUE)
      neg == en < Len(t) /\ t[en + 1] = "-"
      ev == IF en > Len(t) THEN 0 ELSE Nat10(DigitChars(t, en + 1), 1, 0)
  IN [d |-> DigitVals(SubSeq(t, 1, en - 1), 1, <<>>), k |-> (IF neg THEN -ev ELSE ev) - frac]
NumVerdict(ev, t) ==
  LET q == SplitNum(t) IN
  CASE Has(ev, "crash") \/ Has(ev, "hang") -> "crash"
    [] Has(ev, "exc") -> "number refused"
    [] ~Nearest(q.d, q.k, ev.hi, ev.lo, ev.x) -> "not the nearest double"
    [] OTHER -> "ok"
NumPrintVerdict(ev) ==
  CASE Has(ev, "crash") \/ Has(ev, "hang") \/ Has(ev, "exc") -> "crash"
    [] ~Nearest(SplitNum(ev.s).d, SplitNum(ev.s).k, ev.c.hi, ev.c.lo, ev.c.x) -> "printed number is not the number"
    [] ev.hi # ev.c.hi \/ ev.lo # ev.c.lo \/ ev.x # ev.c.x -> "printed number reads back as another"
    [] OTHER -> "ok"

Judge == LET ev == Trace[l]
             v == IF ev.op = "num" THEN NumVerdict(ev, ev.t) ELSE IF ev.op = "numprint" THEN NumPrintVerdict(ev) ELSE IF ev.op = "print" THEN PrintVerdict(ev) ELSE ReadVerdict(ev)
         IN v = "ok" \/ Emit([l |-> l, v |-> v])
=============================================================================
