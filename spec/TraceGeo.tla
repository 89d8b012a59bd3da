------------------------------ MODULE TraceGeo ------------------------------
(* Conformance of the geometry library: measures, accessors, indicators and intersection tests.             *)
EXTENDS Geometry, Emit, IOUtils, Json, TLC
Trace == ndJsonDeserialize(IOEnv.TRACE)
Chunk == 25
VARIABLE l
Init == l \in { i \in 1..Len(Trace) : (i - 1) % Chunk = 0 }
Next == l % Chunk # 0 /\ l < Len(Trace) /\ l' = l + 1
Spec == Init /\ [][Next]_l
Has(ev, f) == f \in DOMAIN ev

\* whole multiples of the unit are compared as numbers: the computation is exact
BoxOk(ev) == /\ ev.vol = BoxVolume(ev.mx, ev.mn) /\ ev.area = BoxArea(ev.mx, ev.mn)
             /\ ev.ext = VSub(ev.mx, ev.mn) /\ ev.hi = ev.mx /\ ev.lo = ev.mn
Digits(ty) == IF ty = "f" THEN 5 ELSE 13
BallOk(ev) == LET D == Len(ev.c) IN
              /\ Near(OfDouble(ev.vol), BallVolume(D, ev.r), Digits(ev.ty)) /\ Near(OfDouble(ev.area), BallArea(D, ev.r), Digits(ev.ty))
              /\ Near(OfDouble(ev.uvol), BallVolume(D, 4), Digits(ev.ty)) /\ Near(OfDouble(ev.uarea), BallArea(D, 4), Digits(ev.ty))
              /\ ev.rad = ev.r /\ ev.cen = ev.c /\ ev.cen0 = [i \in 1..D |-> 0] \o <<>>
              /\ ev.pt = <<0, 0>> /\ ev.ptc = ev.c
PlaneOk(ev) == ev.pc = ev.c /\ ev.pn = Scale(4, ev.n) /\ ev.ph = ev.h /\ ev.ph0 = 0 /\ ev.hc = ev.c /\ ev.hn = Scale(4, ev.n)
IndOk(ev) == LET x == Indicator(ev.a, ev.b, Displacement(ev)) IN ev.val = x /\ ev.hit = (IF x < 0 THEN 1 ELSE 0)
Verdict(ev) == IF Has(ev, "crash") \/ Has(ev, "hang") THEN "crash"
               ELSE IF Has(ev, "exc") THEN "refused"
               ELSE IF (CASE ev.op = "box" -> BoxOk(ev) [] ev.op = "ball" -> BallOk(ev) [] ev.op = "plane" -> PlaneOk(ev) [] ev.op = "ind" -> IndOk(ev)) THEN "ok" ELSE "wrong " \o ev.op
Judge == LET v == Verdict(Trace[l]) IN v = "ok" \/ Emit([l |-> l, v |-> v])
=============================================================================
