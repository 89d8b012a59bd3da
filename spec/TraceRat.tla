------------------------------ MODULE TraceRat ------------------------------
(* Conformance of compile-time constant arithmetic: every result is the rational it should be, in lowest  *)
(* terms, and converts to the nearest double.                                                            *)
EXTENDS Rational, Emit, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
Chunk == 25
VARIABLE l
Init == l \in { i \in 1..Len(Trace) : (i - 1) % Chunk = 0 }
Next == l % Chunk # 0 /\ l < Len(Trace) /\ l' = l + 1
Spec == Init /\ [][Next]_l
Has(ev, f) == f \in DOMAIN ev
RatOf(c) == Q(ZOf(c.n), ZOf(c.d))
Raw(c) == [n |-> ZOf(c.n), d |-> ZOf(c.d)]
Exact(r, q) == Canonical(Raw(r)) /\ QCmp(Raw(r), q) = 0
\* the constants as they are written need not be in lowest terms; the sign changes keep the form
Value(r, q) == Raw(r).d.s = 1 /\ QCmp(Raw(r), q) = 0 /\ TRUE
IsDouble(v, q) == /\ (q.n.s = 0) \/ v.s = q.n.s
                  /\ NearQ(q, v.hi, v.lo, v.x)
Small53(c) == Cmp(ZOf(c.n).m, MulPow2(One, 53)) <= 0 /\ Cmp(ZOf(c.d).m, MulPow2(One, 53)) <= 0
B(x) == IF x THEN 1 ELSE 0
Zero(q) == q.n.s = 0
Wrong(ev) ==
  LET a == RatOf(ev.a) b == RatOf(ev.b)
      canon == Canonical(Raw(ev.a))
      p == QPow(IF Zero(a) THEN QOne ELSE a, ev.k)
      pw == IF Zero(a) /\ ev.k > 0 THEN Q(Z(0, <<>>), Z(1, One)) ELSE p
  IN   (IF Exact(ev.add, QAdd(a, b)) THEN {} ELSE {"+"})
  \cup (IF Exact(ev.sub, QAdd(a, QNeg(b))) THEN {} ELSE {"-"})
  \cup (IF Exact(ev.mul, QMul(a, b)) THEN {} ELSE {"*"})
  \cup (IF Has(ev, "div") => Exact(ev.div, QMul(a, QInv(b))) THEN {} ELSE {"/"})
  \cup (IF Value(ev.neg, QNeg(a)) /\ (canon => Canonical(Raw(ev.neg))) THEN {} ELSE {"negation"})
  \cup (IF Value(ev.pos, a) /\ (canon => Canonical(Raw(ev.pos))) THEN {} ELSE {"unary plus"})
  \cup (IF Value(ev.abs, QAbs(a)) /\ (canon => Canonical(Raw(ev.abs))) THEN {} ELSE {"abs"})
  \cup (IF Has(ev, "pow") => (Value(ev.pow, pw) /\ (canon => Canonical(Raw(ev.pow)))) THEN {} ELSE {"pow"})
  \cup (IF ev.eq = B(QCmp(a, b) = 0) THEN {} ELSE {"=="})
  \cup (IF ev.same = B(QCmp(a, b) = 0) \/ ~canon \/ ~Canonical(Raw(ev.b)) THEN {} ELSE {"equal constants of different types"})
  \cup (IF Small53(ev.a) => (IsDouble(ev.dbl, a) /\ IsDouble(ev.arith, a) /\ IsDouble(ev.n, a) /\ IsDouble(ev.expr, a)) THEN {} ELSE {"conversion"})
Verdict(ev) == IF Has(ev, "crash") THEN {"crash"} ELSE IF Has(ev, "exc") THEN {"error"} ELSE IF Has(ev, "nocompile") THEN {"not provided"} ELSE Wrong(ev)
Judge == LET v == Verdict(Trace[l]) IN v = {} \/ Emit([l |-> l, v |-> v])

\* sin and cos of (n/d) pi for d = 1, 2;  n! and 1/n!
RECURSIVE Fact(_)
Fact(n) == IF n = 0 THEN QOne ELSE QMul(Q(Z(1, AddSmall(<<>>, n)), Z(1, One)), Fact(n - 1))
ZInt(k) == Q(Z(k, IF k = 0 THEN <<>> ELSE One), Z(1, One))
Quarter(f, h) == LET q == (IF f = "sin" THEN h ELSE h + 1) % 4 IN ZInt(CASE q = 0 -> 0 [] q = 1 -> 1 [] q = 2 -> 0 [] q = 3 -> -1)
TrigVerdict(ev) ==
  LET want == CASE ev.f = "Factorial" -> Fact(ev.n)
                [] ev.f = "InvFactorial" -> QInv(Fact(ev.n))
                [] OTHER -> Quarter(ev.f, IF ev.d = 1 THEN 2 * ev.n ELSE ev.n)
  IN IF Has(ev, "crash") THEN "crash" ELSE IF Has(ev, "nocompile") THEN "not provided" ELSE IF Exact(ev.r, want) THEN "ok" ELSE "wrong value"
JudgeTrig == LET v == TrigVerdict(Trace[l]) IN v = "ok" \/ Emit([l |-> l, v |-> v])
=============================================================================
