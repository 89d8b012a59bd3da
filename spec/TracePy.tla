------------------------------ MODULE TracePy -------------------------------
(* Conformance of the Python package: every value it hands out is a Python number, a list or dictionary   *)
(* of values, or an expression, known here by its text, which is read with the grammar of Syntax.tla.      *)
EXTENDS TraceExpr, Syntax

\* values that are no numbers are printed as inf and nan
RECURSIVE Numbers(_)
Numbers(e) ==
  CASE e.k = "v" -> IF e.s \in {"inf", "nan"} THEN [k |-> "nan"] ELSE e
    [] e.k = "u" -> [e EXCEPT !.a = Numbers(e.a)]
    [] e.k = "b" -> [e EXCEPT !.l = Numbers(e.l), !.r = Numbers(e.r)]
    [] e.k = "arr" -> [e EXCEPT !.x = [i \in 1..Len(e.x) |-> Numbers(e.x[i])] \o <<>>]
    [] e.k = "dict" -> [e EXCEPT !.m = [i \in 1..Len(e.m) |-> <<e.m[i][1], Numbers(e.m[i][2])>>] \o <<>>]
    [] OTHER -> e
RECURSIVE Tree(_)
Tree(x) ==
  CASE x.k = "txt" -> Numbers(Parse(x.t))
    [] x.k = "arr" -> [k |-> "arr", x |-> [i \in 1..Len(x.x) |-> Tree(x.x[i])]]
    [] x.k = "dict" -> [k |-> "dict", m |-> [i \in 1..Len(x.m) |-> <<Tree(x.m[i][1]), Tree(x.m[i][2])>>]]
    [] OTHER -> x
RECURSIVE Readable(_)
Readable(x) ==
  CASE x.k = "txt" -> Parse(x.t) # NoParse
    [] x.k = "arr" -> \A i \in 1..Len(x.x) : Readable(x.x[i])
    [] x.k = "dict" -> \A i \in 1..Len(x.m) : Readable(x.m[i][1]) /\ Tree(x.m[i][1]).k = "v" /\ Readable(x.m[i][2])
    [] OTHER -> x.k \in {"c", "nan"}
\* containers come out as Python containers and numbers as Python numbers
RECURSIVE Converted(_)
Converted(x) ==
  CASE x.k = "txt" -> Parse(x.t).k \notin {"c", "arr", "dict"} /\ ~(Parse(x.t).k = "u" /\ Parse(x.t).o = "neg" /\ Parse(x.t).a.k = "c")
    [] x.k = "arr" -> \A i \in 1..Len(x.x) : Converted(x.x[i])
    [] x.k = "dict" -> \A i \in 1..Len(x.m) : Converted(x.m[i][2])
    [] OTHER -> TRUE

RECURSIVE SymArray(_)
SymArray(e) ==
  CASE e.k = "u" -> Shape(e) = "sym" \/ SymArray(e.a)
    [] e.k = "b" -> Shape(e) = "sym" \/ SymArray(e.l) \/ SymArray(e.r)
    [] e.k = "arr" -> \E i \in 1..Len(e.x) : SymArray(e.x[i])
    [] OTHER -> FALSE

\* a list inside a list (or as the right side of an equality) need not be taken as an expression
RECURSIVE Nested(_)
Nested(e) ==
  CASE e.k = "u" -> Nested(e.a)
    [] e.k = "b" -> Nested(e.l) \/ Nested(e.r) \/ (e.o = "=" /\ HasKind(e.r, {"arr", "dict"}))
    [] e.k = "arr" -> \E i \in 1..Len(e.x) : HasKind(e.x[i], {"arr", "dict"})
    [] e.k = "dict" -> \E i \in 1..Len(e.m) : HasKind(e.m[i][2], {"arr", "dict"})
    [] OTHER -> FALSE
NestedCall(ev) == Nested(ev.c) \/ (ev.op = "sub" /\ HasKind(ev.c, {"arr"}) /\ HasKind(ev.s, {"arr"}))

ValueVerdict(ev) ==
  CASE Has(ev, "exc") -> IF MayFail(ev) \/ NestedCall(ev) THEN "error" ELSE "unexpected error"
    [] ~Readable(ev.r) -> "unreadable result"
    [] ~(Vars(Tree(ev.r)) \subseteq VarNames) -> "invented a symbol"
    [] ev.conv /\ ~Converted(ev.r) -> "not converted to a Python value"
    [] ValueOk([ev EXCEPT !.r = Tree(ev.r)]) -> IF Defined(ev) THEN "ok" ELSE "vacuous"
    [] ev.fi = 1 -> "rounded"
    [] DerivIdx([ev EXCEPT !.r = Tree(ev.r)]) -> "error"
    [] SymArrayMix(ev.c) \/ (ev.op = "deriv" /\ SymArray(ev.c)) -> "vacuous"           \* a recorded finding of C04
    [] OTHER -> "wrong value"

TextVerdict(ev) ==
  LET e == Parse(ev.t) IN
  CASE Has(ev, "exc") -> IF e = NoParse \/ MayFail([op |-> "simplify", c |-> e]) THEN "ok" ELSE "formula refused"
    [] e = NoParse -> "malformed text accepted"
    [] ~Readable(ev.r) -> "unreadable result"
    [] ~(Vars(e) \subseteq VarNames) \/ SymArrayMix(e) \/ HasOp(e, {"units", "idx"}) \/ Same(e, Tree(ev.r)) -> "ok"
    [] ev.fi = 1 -> "rounded"
    [] OTHER -> "read with another value"

B(b) == IF b THEN 1 ELSE 0
EqVerdict(ev) ==
  CASE Has(ev, "exc") -> IF Nested(ev.p) \/ Nested(ev.q) \/ MayFail([op |-> "simplify", c |-> ev.p]) \/ MayFail([op |-> "simplify", c |-> ev.q]) THEN "error" ELSE "unexpected error"
    [] ~Readable(ev.a) \/ ~Readable(ev.b) -> "unreadable result"
    [] HasKind(Tree(ev.a), {"nan"}) \/ HasKind(Tree(ev.b), {"nan"}) -> "vacuous"
    [] ev.ab # ev.ba \/ ev.ne = ev.ab -> "== is not symmetric or != not its negation"
    [] ev.fi = 0 /\ ev.ab # B(SameTree(Tree(ev.a), Tree(ev.b)) \/ SameTree(Tree(ev.b), Tree(ev.a))) -> "== does not mean the same expression"
    [] ev.hh # -1 /\ ev.ab = 1 /\ (ev.hh # 1 \/ ev.set # 1) -> "equal expressions have different hashes"
    [] ev.set # -1 /\ ev.ab = 0 /\ ev.set # 2 -> "different expressions share a set entry"
    [] ev.st1 # 1 -> "hash is not stable"
    [] OTHER -> "ok"

\* what Python does not take as an expression is refused; a comparison with it does not succeed
MisuseVerdict(ev) ==
  IF ev.w = "eqobj" THEN (IF ~Has(ev, "exc") /\ ev.same # 0 THEN "equal to something else" ELSE "ok")
  ELSE IF Has(ev, "exc") \/ (ev.w = "make" /\ ev.z = "bytes") THEN "ok" ELSE "misuse accepted"   \* bytes are text

PyVerdict(ev) ==
  CASE Has(ev, "crash") \/ Has(ev, "hang") -> "crash"
    [] ev.op = "text" -> TextVerdict(ev)
    [] ev.op = "eq" -> EqVerdict(ev)
    [] ev.op = "misuse" -> MisuseVerdict(ev)
    [] OTHER -> ValueVerdict(ev)
PyJudge == LET v == PyVerdict(Trace[l]) IN v = "ok" \/ Emit([l |-> l, v |-> v])
=============================================================================
