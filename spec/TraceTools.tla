----------------------------- MODULE TraceTools -----------------------------
(* Recorded results of the helpers against their meaning.                                                   *)
EXTENDS Tools, Emit, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
Chunk == 25
VARIABLE l
Init == l \in { i \in 1..Len(Trace) : (i - 1) % Chunk = 0 }
Next == l % Chunk # 0 /\ l < Len(Trace) /\ l' = l + 1
Spec == Init /\ [][Next]_l
RECURSIVE Lists(_, _, _)
Lists(s, h, i) == IF i > Len(h) THEN <<s>> ELSE <<s>> \o Lists(ListStep(s, h[i]), h, i + 1)
Sum(s) == LET F[i \in 0..Len(s)] == IF i = 0 THEN 0 ELSE F[i - 1] + s[i] IN F[Len(s)]
Ok(ev) ==
  CASE ev.op = "list" -> LET w == Lists(ev.s, ev.h, 1) IN
         /\ Len(ev.r) = Len(w)
         /\ \A i \in 1..Len(w) : ev.r[i].l = w[i] /\ ev.r[i].n = Len(w[i]) /\ ev.r[i].g = w[i] /\ ev.r[i].f = w[i] /\ ev.r[i].sum = Sum(w[i])
    [] ev.op = "option" ->
         /\ ev.val = <<Option(ev.o, "A", -7, 1), Option(ev.o, "B", 20, 1), Option(ev.o, "C", 0, 1)>>
         /\ ev.typ = ev.val /\ ev.tmpl = ev.val
         /\ ev.here = <<Present(ev.o, "A", 2), Present(ev.o, "B", 5), Present(ev.o, "C", 0)>>
         /\ ev.ok = <<AllOf(ev.o, <<>>), AllOf(ev.o, <<"A">>), AllOf(ev.o, <<"B", "A">>), AllOf(ev.o, <<"C", "B">>), AllOf(ev.o, <<"A", "B", "C">>)>>
    [] ev.op = "text" -> LET s == Swap(ev.x, ev.from, ev.to) IN
         ev.strip = Strip(ev.x, ev.ws) /\ ev.strip0 = Strip(ev.x, " \t") /\ ev.swap = s[1] /\ ev.n = s[2] /\ ev.fmt = ev.x \o "/" \o ToString(s[2]) \o "%" \o ev.from
    [] ev.op = "error" -> Len(ev.m) = Len(ev.h) + 1 /\ ev.where = 1 /\ \A i \in 1..Len(ev.m) : ev.m[i] = Message(ev.h, 1, i - 1)
Verdict(ev) ==
  IF "crash" \in DOMAIN ev \/ "hang" \in DOMAIN ev THEN "crash"
  ELSE IF "nocompile" \in DOMAIN ev THEN "does not compile"
  ELSE IF "exc" \in DOMAIN ev THEN "unexpected error"
  ELSE IF Ok(ev) THEN "ok" ELSE "wrong"
Judge == LET r == Verdict(Trace[l]) IN r = "ok" \/ Emit([l |-> l, v |-> r])
=============================================================================
