----------------------------- MODULE TraceXml -------------------------------
(* Recorded histories of changes to XML documents against the tree model.                                   *)
EXTENDS Xml, Emit, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
Chunk == 25
VARIABLE l
Init == l \in { i \in 1..Len(Trace) : (i - 1) % Chunk = 0 }
Next == l % Chunk # 0 /\ l < Len(Trace) /\ l' = l + 1
Spec == Init /\ [][Next]_l
RECURSIVE First(_, _, _)
\* the first change after which the document is not what it should be
First(ev, t, i) == IF ev.o[i].roots # RootView(t) \/ ev.o[i].pr # Printed(t) \/ ev.o[i].bad # <<>> THEN i
                   ELSE IF i > Len(ev.h) THEN 0 ELSE First(ev, Apply(t, ev.h[i]), i + 1)
\* the place of the error is the end of what there is, before or after the final end of line
Ends(x) == {Len(x)} \cup (IF SubSeq(x, Len(x), Len(x)) = "\n" THEN {Len(x) - 1} ELSE {})
Start(ev) == IF ev.from = "build" THEN Doc ELSE ev.tree
Verdict(ev) ==
  IF "crash" \in DOMAIN ev \/ "hang" \in DOMAIN ev THEN [v |-> "crash", at |-> 0]
  ELSE IF ev.op = "cut" THEN
    (IF ev.res # "refused" THEN [v |-> "not refused", at |-> 0]
     ELSE IF ~ \E k \in Ends(ev.text) : ev.line = Lines(SubSeq(ev.text, 1, k), 1) /\ ev.col = Column(ev.text, k) THEN [v |-> "wrong place", at |-> 0] ELSE [v |-> "ok", at |-> 0])
  ELSE IF "exc" \in DOMAIN ev THEN [v |-> "unexpected error", at |-> 0]
  ELSE IF Len(ev.o) # Len(ev.h) + 1 THEN [v |-> "incomplete", at |-> 0]
  ELSE LET f == First(ev, Start(ev), 1) IN IF f = 0 THEN [v |-> "ok", at |-> 0] ELSE [v |-> "wrong", at |-> f]
Judge == LET r == Verdict(Trace[l]) IN r.v = "ok" \/ Emit([l |-> l, v |-> r.v, at |-> r.at])
=============================================================================
