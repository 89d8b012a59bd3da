------------------------------- MODULE Arrays -------------------------------
(* Two arrays of one kind each.  An array is its dimensions and its elements in row-major order; elements *)
(* that were never written are Unset and may read as anything.  Numbers are residues (Field).             *)
EXTENDS Field
Unset == -1
Kinds == {"D-D", "D1-F1", "D2-F2", "F2-F2", "D3-F3", "L-LF", "L-L", "RT-RT"}
\* capacity (-1: grows) and rank (0: any) of the two arrays of a kind
Cap(t, v) == CASE t = "D1-F1" /\ v = 2 -> 5 [] t = "D2-F2" /\ v = 2 -> 12 [] t = "F2-F2" -> 12 [] t = "D3-F3" /\ v = 2 -> 24 [] t = "L-LF" /\ v = 2 -> 6 [] OTHER -> -1
Rank(t) == CASE t = "D-D" -> 0 [] t \in {"D2-F2", "F2-F2"} -> 2 [] t = "D3-F3" -> 3 [] OTHER -> 1
Pair2(t) == t \in {"D-D", "F2-F2", "L-L"}                  \* both of the same copyable type

RECURSIVE Product(_, _)
Product(d, i) == IF i > Len(d) THEN 1 ELSE d[i] * Product(d, i + 1)
Size(d) == IF d = <<>> THEN 0 ELSE Product(d, 1)
RECURSIVE IndexFrom(_, _, _, _)
IndexFrom(d, c, i, acc) == IF i > Len(d) THEN acc ELSE IndexFrom(d, c, i + 1, (acc * d[i]) + c[i])
Index(d, c) == IndexFrom(d, c, 1, 0) + 1
\* the coordinates of the i-th element (i from 0)
RECURSIVE CoordsOf(_, _)
CoordsOf(d, i) == IF d = <<>> THEN <<>> ELSE Append(CoordsOf(SubSeq(d, 1, Len(d) - 1), i \div d[Len(d)]), i % d[Len(d)])

Blank(n) == [i \in 1..n |-> Unset] \o <<>>
Start(t) == LET a == [d |-> IF Rank(t) = 0 THEN <<>> ELSE [i \in 1..Rank(t) |-> 0] \o <<>>, x |-> <<>>] IN <<a, a>>
Q(r) == FRat(r[1], r[2])
RECURSIVE Fill(_, _, _)
Fill(a, f, i) == IF i > Len(f) THEN a ELSE Fill([a EXCEPT !.x[Index(a.d, f[i][1])] = Q(f[i][2])], f, i + 1)
Arith(o, l, r) == IF l = Unset \/ r = Unset THEN Unset
                  ELSE CASE o = "+" -> FAdd(l, r) [] o = "-" -> FSub(l, r) [] o = "*" -> FMul(l, r) [] o = "/" -> FDiv(l, r)
Ok(st) == [ok |-> TRUE, st |-> st]
No(st) == [ok |-> FALSE, st |-> st]
Put(st, v, a) == Ok([st EXCEPT ![v] = a])

Apply(t, st, q) ==
  LET v == q.v + 1
      a == st[v]
      fits(d) == Cap(t, v) < 0 \/ Size(d) <= Cap(t, v)
  IN
  CASE q.a = "new" -> IF ~fits(q.d) THEN No(st) ELSE Put(st, v, Fill([d |-> q.d, x |-> Blank(Size(q.d))], q.f, 1))
    [] q.a = "newl" -> IF Len(q.l) # Size(q.d) THEN No(st) ELSE Put(st, v, [d |-> q.d, x |-> [i \in 1..Len(q.l) |-> Q(q.l[i])] \o <<>>])
    [] q.a = "newv" -> Put(st, v, [d |-> <<Len(q.l)>>, x |-> [i \in 1..Len(q.l) |-> Q(q.l[i])] \o <<>>])
    [] q.a = "resize" ->
         IF ~fits(q.d) THEN No(st)
         ELSE LET kept == IF q.d = a.d THEN a.x
                          ELSE IF Len(q.d) = 1 /\ Len(a.d) <= 1 THEN [i \in 1..q.d[1] |-> IF i <= Len(a.x) THEN a.x[i] ELSE Unset] \o <<>>
                          ELSE Blank(Size(q.d))
              IN Put(st, v, Fill([d |-> q.d, x |-> kept], q.f, 1))
    [] q.a = "push" -> IF Len(a.d) > 1 \/ ~fits(<<Len(a.x) + 1>>) THEN No(st)
                       ELSE Put(st, v, [d |-> <<Len(a.x) + 1>>, x |-> Append(a.x, Q(q.x))])
    [] q.a = "set" -> Put(st, v, [a EXCEPT !.x[Index(a.d, q.c)] = Q(q.x)])
    [] q.a = "addr" -> No(st)                                        \* an address of the wrong length
    [] q.a = "copy" -> Put(st, v, st[3 - v])
    [] q.a = "eq" -> Ok(st)
    [] q.a = "op" ->
         LET dst == IF q.l < 2 THEN q.l + 1 ELSE q.r + 1
             n == Len(st[dst].x)
             at(k, i) == IF k = 2 THEN Q(q.s) ELSE st[k + 1].x[i]
         IN IF q.l < 2 /\ q.r < 2 /\ st[q.l + 1].d # st[q.r + 1].d THEN No(st)
            ELSE Put(st, dst, [d |-> st[dst].d, x |-> [i \in 1..n |-> Arith(q.o, at(q.l, i), at(q.r, i))] \o <<>>])

TypeOk(t, st) == \A v \in 1..2 : Len(st[v].x) = Size(st[v].d) /\ (Cap(t, v) >= 0 => Len(st[v].x) <= Cap(t, v)) /\ (Rank(t) > 0 => Len(st[v].d) = Rank(t))
Addressed(st) == \A v \in 1..2 : LET d == st[v].d IN
                   \A i \in 0..(Size(d) - 1) : Index(d, CoordsOf(d, i)) = i + 1     \* every element has its own address
=============================================================================
