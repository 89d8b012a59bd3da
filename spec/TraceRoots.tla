----------------------------- MODULE TraceRoots -----------------------------
(* Recorded roots, root counts, root bounds and isolating intervals against the known roots.             *)
EXTENDS Roots, TLC, Emit, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
Chunk == 25
VARIABLE l
Init == l \in { i \in 1..Len(Trace) : (i - 1) % Chunk = 0 }
Next == l % Chunk # 0 /\ l < Len(Trace) /\ l' = l + 1
Spec == Init /\ [][Next]_l
K == 65536
\* within the tolerance of the root finder: 2^-22 of the root, and two grid units
Near(t, r) == t[1] < 1000000000 /\ t[1] > -1000000000 /\ Ab(t[1] - r * K) <= 2 + (Ab(r) \div 32)
RootsOk(ev) == \A m \in 1..Len(ev.r) :
  LET v == ev.r[m] IN Len(v) = Len(ev.R) /\ \A i \in 1..Len(v) : Near(v[i], ev.R[i])
\* exact comparisons of a transported number with r
Below(t, r) == t[1] < r * K                       \* number < r
Above(t, r) == t[1] > r * K \/ (t[1] = r * K /\ t[2] = 1)
Equal(t, r) == t[1] = r * K /\ t[2] = 0
Bad(t) == t[1] >= 2000000000
Positive(R) == { R[i] : i \in { j \in 1..Len(R) : R[j] > 0 } }
\* at the grid of transported numbers, a bound may be one grid unit on the wrong side (the roots are exact, the bounds are floating point)
BoundsOk(ev) == \A r \in Positive(ev.R) : ~Bad(ev.ub) /\ ~Bad(ev.lb) /\ ev.ub[1] >= r * K - 1 /\ ev.lb[1] <= r * K + 1
Holds(iv, r) == \/ Below(iv[1], r) /\ Above(iv[2], r)
                \/ Equal(iv[1], r) /\ Equal(iv[2], r)
IsolOk(v, R) == /\ Len(v) = Cardinality(Positive(R))
                /\ \A i \in 1..Len(v) : Len(v[i]) = 2 /\ ~Bad(v[i][1]) /\ ~Bad(v[i][2]) /\ Cardinality({ r \in Positive(R) : Holds(v[i], r) }) = 1
                /\ \A r \in Positive(R) : Cardinality({ i \in 1..Len(v) : Holds(v[i], r) }) = 1
SturmOk(ev) == \A i \in 1..Len(ev.iv) : ev.r[i] = RealIn(ev.R, ev.iv[i][1], ev.iv[i][2])
\* f((a + b x)/(1 + x)) (1 + x)^n, a and b whole units
Stretch(h, w) == [i \in 1..Len(h) |-> h[i] * w^(i - 1)] \o <<>>
Between(f, a, b) == LET h == ZShift(f, a) IN LET k == Stretch(h, b - a) IN LET m == ZShift(ZRev(k), 1) IN Variations(m)
InOpen(R, a, b) == Cardinality({ i \in 1..Len(R) : a < R[i] /\ R[i] < b })
Bounds2(v, n) == v >= n /\ (v - n) % 2 = 0
CountOk(ev) ==
  /\ ev.desc = Variations(ev.f) /\ Bounds2(ev.desc, Mult(ev.R))
  /\ ev.budan = Budan(ev.f) /\ Bounds2(ev.budan, InOpen(ev.R, 0, 1))
  /\ \A i \in 1..Len(ev.iv) : LET a == ev.iv[i][1] \div 2  b == ev.iv[i][2] \div 2
                              IN ev.ag[i] = Between(ev.f, a, b) /\ Bounds2(ev.ag[i], InOpen(ev.R, a, b))
\* the factor found from a starting point near a factor is that factor; ev.r[i] is <<c, b, a>> in units of 2^-16
FactorOk(ev) == /\ Len(ev.r) = Len(ev.t)
                /\ \A i \in 1..Len(ev.t) : LET v == ev.r[i] t == ev.t[i] tol == 16 + ((Ab(t[1]) + Ab(t[2])) \div 16)
                                          IN Len(v) = 3 /\ v[3] = 65536 /\ Ab(v[1] - t[1] * K) <= tol /\ Ab(v[2] - t[2] * K) <= tol
Ok(ev) == CASE ev.op = "roots" -> RootsOk(ev)
            [] ev.op = "factor" -> FactorOk(ev)
            [] ev.op = "sturm" -> SturmOk(ev)
            [] ev.op = "bounds" -> BoundsOk(ev)
            [] ev.op = "count" -> CountOk(ev)
            [] ev.op = "isol" -> IsolOk(ev.vca, ev.R) /\ IsolOk(ev.vas, ev.R)
Verdict(ev) ==
  CASE "crash" \in DOMAIN ev \/ "hang" \in DOMAIN ev -> "crash"
    [] "exc" \in DOMAIN ev -> "unexpected error"
    [] "skip" \in DOMAIN ev -> "skipped"
    [] Ok(ev) -> "ok"
    [] OTHER -> "wrong"
Judge == LET v == Verdict(Trace[l]) IN v = "ok" \/ Emit([l |-> l, v |-> v])
=============================================================================
