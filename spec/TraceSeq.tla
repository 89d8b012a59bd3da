----------------------------- MODULE TraceSeq -------------------------------
(* Recorded histories of StackVector operations against the bounded-sequence model.                        *)
EXTENDS Seqs, Emit, Json, IOUtils
CONSTANT Debug
Trace == ndJsonDeserialize(IOEnv.TRACE)
Chunk == 25
VARIABLE l
Init == l \in { i \in 1..Len(Trace) : (i - 1) % Chunk = 0 }
Next == l % Chunk # 0 /\ l < Len(Trace) /\ l' = l + 1
Spec == Init /\ [][Next]_l
All(o, v) == o.st[v]
ViewOk(t, w, s) ==
  /\ w.n = Len(s) /\ w.emp = (IF s = <<>> THEN 1 ELSE 0)
  /\ \A i \in 1..Len(w.fw) : w.fw[i] = s
  /\ \A i \in 1..Len(w.bw) : w.bw[i] = Rev(s)
  /\ s # <<>> => w.bk[1] = s[Len(s)] /\ w.bk[2] = s[Len(s)]
  /\ w.pr = Printed(t, s)
StepOk(t, st, q, o) ==
  IF Debug /\ Beyond(st, q) THEN o.re = 1 /\ o.st \in Refused(st, q) /\ ViewOk(t, o.w, o.st[q.v + 1])
  ELSE /\ o.re = 0 /\ o.st = Apply(st, q) /\ ViewOk(t, o.w, o.st[q.v + 1])
       /\ q.a = "pop" => o.ret = Ret(st, q)
       /\ q.a = "eq" => o.eq = (IF st[2] = st[3] THEN <<1, 1, 0, 1>> ELSE <<0, 0, 1, 1>>)
RECURSIVE First(_, _, _)
First(ev, st, i) == IF i > Len(ev.h) THEN 0
                    ELSE IF i > Len(ev.o) THEN i
                    ELSE IF ~StepOk(ev.t, st, ev.h[i], ev.o[i]) THEN i ELSE First(ev, ev.o[i].st, i + 1)
Verdict(ev) ==
  IF "crash" \in DOMAIN ev \/ "hang" \in DOMAIN ev THEN [v |-> "crash", at |-> 0]
  ELSE IF "exc" \in DOMAIN ev THEN [v |-> "unexpected error", at |-> 0]
  ELSE LET f == First(ev, Empty, 1) IN IF f = 0 THEN [v |-> "ok", at |-> 0] ELSE [v |-> "wrong", at |-> f]
Judge == LET r == Verdict(Trace[l]) IN r.v = "ok" \/ Emit([l |-> l, v |-> r.v, at |-> r.at])
=============================================================================
