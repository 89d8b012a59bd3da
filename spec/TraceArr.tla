----------------------------- MODULE TraceArr -------------------------------
(* Recorded histories on arrays against the model in Arrays.tla.                                            *)
EXTENDS Arrays, Emit, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
Chunk == 25
VARIABLE l
Init == l \in { i \in 1..Len(Trace) : (i - 1) % Chunk = 0 }
Next == l % Chunk # 0 /\ l < Len(Trace) /\ l' = l + 1
Spec == Init /\ [][Next]_l
Known(x) == \A i \in 1..Len(x) : x[i] # Unset
Matches(x, y) == Len(x) = Len(y) /\ \A i \in 1..Len(x) : x[i] = Unset \/ x[i] = y[i]
\* every way of looking at the array shows the same elements
LooksOk(a, w, judged) ==
  /\ w.d = a.d /\ w.n = Size(a.d) /\ w.e = (IF Size(a.d) = 0 THEN 1 ELSE 0)
  /\ w.it[2] = w.it[1] /\ \A k \in 1..4 : w.ad[k] = w.it[1]
  /\ Len(w.it[1]) = Size(a.d)
  /\ judged => Matches(a.x, w.it[1])
StepOk(t, st, q, o) ==
  LET r == Apply(t, st, q) IN
  /\ o.re = (IF r.ok THEN 0 ELSE 1)
  /\ \A v \in 1..2 : LooksOk(r.st[v], o.st[v], o.fi = 0)
  /\ q.a = "eq" => LET e(v, w) == IF st[v].d # st[w].d THEN {0} ELSE IF ~Known(st[v].x) \/ ~Known(st[w].x) THEN {0, 1}
                                  ELSE IF st[v].x = st[w].x THEN {1} ELSE {0}
                   IN o.eq[1] \in e(1, 1) /\ o.eq[2] \in e(2, 2) /\ o.eq[3] \in e(1, 2) /\ o.eq[4] \in e(2, 1)
\* rounded or overflowed values are taken from the record
Sync(t, st, q, o) ==
  LET r == Apply(t, st, q).st IN
  IF o.fi = 0 THEN r ELSE [v \in 1..2 |-> [d |-> r[v].d, x |-> [i \in 1..Len(r[v].x) |-> IF o.st[v].it[1][i] < P THEN o.st[v].it[1][i] ELSE Unset] \o <<>>]]
RECURSIVE First(_, _, _)
First(ev, st, i) == IF i > Len(ev.h) THEN 0
                    ELSE IF i > Len(ev.o) THEN i
                    ELSE IF ~StepOk(ev.t, st, ev.h[i], ev.o[i]) THEN i ELSE First(ev, Sync(ev.t, st, ev.h[i], ev.o[i]), i + 1)
Verdict(ev) ==
  IF "crash" \in DOMAIN ev \/ "hang" \in DOMAIN ev THEN [v |-> "crash", at |-> 0]
  ELSE IF "exc" \in DOMAIN ev THEN [v |-> "unexpected error", at |-> 0]
  ELSE LET f == First(ev, Start(ev.t), 1) IN IF f = 0 THEN [v |-> "ok", at |-> 0] ELSE [v |-> "wrong", at |-> f]
Judge == LET r == Verdict(Trace[l]) IN r.v = "ok" \/ Emit([l |-> l, v |-> r.v, at |-> r.at])
=============================================================================
