------------------------------ MODULE TraceEq -------------------------------
(* Equality is structural equality; hashing agrees with it; neither depends on how an expression was made *)
EXTENDS Field, Emit, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
Chunk == 25
VARIABLE l
Init == l \in { i \in 1..Len(Trace) : (i - 1) % Chunk = 0 }
Next == l % Chunk # 0 /\ l < Len(Trace) /\ l' = l + 1
Spec == Init /\ [][Next]_l

\* the last value given to each key
Last(m, i) == \A j \in (i + 1)..Len(m) : m[j][1].s # m[i][1].s
Live(m) == { i \in 1..Len(m) : Last(m, i) }
RECURSIVE Eq(_, _)
Eq(e, f) ==
  IF e.k # f.k THEN FALSE ELSE
  CASE e.k = "c" -> e.n * f.d = f.n * e.d
    [] e.k = "v" -> e.s = f.s
    [] e.k = "u" -> e.o = f.o /\ Eq(e.a, f.a)
    [] e.k = "b" -> e.o = f.o /\ Eq(e.l, f.l) /\ Eq(e.r, f.r)
    [] e.k = "arr" -> Len(e.x) = Len(f.x) /\ \A i \in 1..Len(e.x) : Eq(e.x[i], f.x[i])
    [] e.k = "dict" -> /\ { e.m[i][1].s : i \in 1..Len(e.m) } = { f.m[i][1].s : i \in 1..Len(f.m) }
                       /\ \A i \in Live(e.m) : \E j \in Live(f.m) : e.m[i][1].s = f.m[j][1].s /\ Eq(e.m[i][2], f.m[j][2])
B(b) == IF b THEN 1 ELSE 0
Verdict(ev) ==
  IF "crash" \in DOMAIN ev \/ "hang" \in DOMAIN ev THEN "crash"
  ELSE IF "exc" \in DOMAIN ev THEN "unexpected error"
  ELSE LET want == B(Eq(ev.a, ev.b)) IN
       CASE ev.ab # want \/ ev.ba # want -> IF want = 1 THEN "equal expressions compare unequal" ELSE "different expressions compare equal"
         [] ev.ne = want -> "!= is not the negation of =="
         [] want = 1 /\ ev.hh # 1 -> "equal expressions have different hashes"
         [] ev.stable # 1 -> "hash is not stable"
         [] OTHER -> "ok"
Judge == LET v == Verdict(Trace[l]) IN v = "ok" \/ Emit([l |-> l, v |-> v])
=============================================================================
