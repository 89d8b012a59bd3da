------------------------------- MODULE GenGeo -------------------------------
(* Objects and pairs of objects: dimensions, coordinates, radii and displacements chosen one at a time.     *)
EXTENDS Geometry, Emit, TLC
CONSTANTS Op, Dims, Span
VARIABLES dim, co, done
vars == <<dim, co, done>>
\* how many coordinates a command needs
Need == CASE Op = "box" -> 2 * dim [] Op = "ball" -> dim + 1 [] Op = "plane" -> 2 * dim + 1 [] OTHER -> 4 * dim + 4
Init == dim \in Dims /\ co = <<>> /\ done = FALSE
Coord == (-Span)..Span
Add == Len(co) < Need /\ \E x \in Coord : co' = Append(co, x) /\ UNCHANGED <<dim, done>>
Stop == Len(co) = Need /\ done = FALSE /\ done' = TRUE /\ UNCHANGED <<dim, co>>
Next == Add \/ Stop
Spec == Init /\ [][Next]_vars
V(k) == SubSeq(co, k * dim + 1, (k + 1) * dim)
Ab(x) == IF x < 0 THEN -x ELSE x
Hi(a, b) == [i \in 1..Len(a) |-> IF a[i] > b[i] THEN a[i] ELSE b[i]] \o <<>>
Lo(a, b) == [i \in 1..Len(a) |-> IF a[i] > b[i] THEN b[i] ELSE a[i]] \o <<>>
Axis(x) == [i \in 1..dim |-> IF i = (Ab(x) % dim) + 1 THEN (IF x < 0 THEN -1 ELSE 1) ELSE 0] \o <<>>
R(k) == Ab(co[4 * dim + k])
Ball(k, r) == [k |-> "ball", c |-> V(k), r |-> r]
Point(k) == [k |-> "point", c |-> V(k)]
Half(k, x) == [k |-> "half", c |-> V(k), n |-> Axis(x)]
Pairs == { <<Ball(0, R(1)), Ball(1, R(2))>>, <<Ball(0, R(1)), Point(1)>>, <<Point(0), Ball(1, R(2))>>, <<Ball(0, R(1)), Half(1, co[4 * dim + 3])>>, <<Half(0, co[4 * dim + 3]), Ball(1, R(2))>> }
Report == done =>
  CASE Op = "box" -> \A ty \in {"d", "f", "i"} : Emit([op |-> "box", ty |-> ty, mx |-> Hi(V(0), V(1)), mn |-> Lo(V(0), V(1))])
    [] Op = "ball" -> \A ty \in {"d", "f"} : Emit([op |-> "ball", ty |-> ty, c |-> V(0), r |-> Ab(co[dim + 1])])
    [] Op = "plane" -> Emit([op |-> "plane", c |-> V(0), n |-> Axis(V(1)[1]), h |-> Ab(co[2 * dim + 1])])
    [] OTHER -> \A p \in Pairs :
         /\ Emit([op |-> "ind", a |-> p[1], b |-> p[2], dk |-> "null"])
         /\ Emit([op |-> "ind", a |-> p[1], b |-> p[2], dk |-> "vec", v |-> V(2)])
         /\ (p[1].k # "half" /\ p[2].k # "half") => Emit([op |-> "ind", a |-> p[1], b |-> p[2], dk |-> "line", v |-> V(2), w |-> V(3), t |-> co[4 * dim + 4]])
=============================================================================
