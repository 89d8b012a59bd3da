-------------------------------- MODULE Seqs --------------------------------
(* Bounded sequences: five vectors of fixed capacities.  Apply gives the outcome of one operation on the  *)
(* whole pool; the generator walks histories of it and the judge folds it over recorded histories.        *)
EXTENDS Integers, Sequences, FiniteSets, TLC
Cap == <<2, 4, 4, 7, 0>>
Vec == 1..5
Empty == [v \in Vec |-> <<>>]
Cut(s, n) == SubSeq(s, 1, IF Len(s) < n THEN Len(s) ELSE n)
RECURSIVE Insert(_, _)
Insert(s, x) == IF s = <<>> THEN <<x>> ELSE IF x <= s[1] THEN <<x>> \o s ELSE <<s[1]>> \o Insert(Tail(s), x)
RECURSIVE Sorted(_)
Sorted(s) == IF s = <<>> THEN <<>> ELSE Insert(Sorted(Tail(s)), s[1])
Set(st, v, s) == [st EXCEPT ![v] = s \o <<>>]
Wants(st, q) == CASE q.a = "push" -> Len(st[q.v + 1]) + 1
                  [] q.a = "ext" -> Len(st[q.v + 1]) + Len(st[q.w + 1])
                  [] OTHER -> 0
\* would exceed the capacity, or take from nothing
Beyond(st, q) == Wants(st, q) > Cap[q.v + 1] \/ (q.a = "pop" /\ st[q.v + 1] = <<>>)
\* may be asked for at all
Legal(st, q) == CASE q.a = "copy" -> Cap[q.w + 1] <= Cap[q.v + 1]
                  [] q.a = "set" -> q.k < Len(st[q.v + 1]) /\ (q.how = 3 => q.k = Len(st[q.v + 1]) - 1)
                  [] OTHER -> TRUE
Apply(st, q) ==
  LET s == st[q.v + 1] IN
  CASE q.a = "init" -> Set(st, q.v + 1, Cut(q.l, Cap[q.v + 1]))       \* longer lists are cut (documented by the tests)
    [] q.a = "push" -> Set(st, q.v + 1, Append(s, q.x))
    [] q.a = "pop" -> Set(st, q.v + 1, SubSeq(s, 1, Len(s) - 1))
    [] q.a = "ext" -> Set(st, q.v + 1, s \o st[q.w + 1])
    [] q.a = "copy" -> Set(st, q.v + 1, st[q.w + 1])
    [] q.a = "set" -> Set(st, q.v + 1, [s EXCEPT ![q.k + 1] = q.x])
    [] q.a = "swap" -> [st EXCEPT ![2] = st[3], ![3] = st[2]]
    [] q.a = "sort" -> Set(st, q.v + 1, Sorted(s))
    [] q.a = "eq" -> st
\* a refused operation leaves the contents; an extension may have happened up to the capacity
Refused(st, q) == IF q.a # "ext" THEN {st}
                  ELSE { Set(st, q.v + 1, st[q.v + 1] \o SubSeq(st[q.w + 1], 1, n)) : n \in 0..(Cap[q.v + 1] - Len(st[q.v + 1])) }
Ret(st, q) == st[q.v + 1][Len(st[q.v + 1])]
Rev(s) == [i \in 1..Len(s) |-> s[Len(s) + 1 - i]] \o <<>>
\* invariants of the model itself
WithinCapacity(st) == \A v \in Vec : Len(st[v]) <= Cap[v]
\* printed form
One(t, x) == CASE t = "int" -> ToString(x) [] t = "str" -> "s" \o ToString(x)
               [] t = "pair" -> "[" \o ToString(x) \o ", " \o ToString(x + 1) \o "]" [] t = "tuple" -> "[" \o ToString(x) \o " " \o ToString(x + 1) \o " ]"
RECURSIVE Items(_, _)
Items(t, s) == IF s = <<>> THEN "" ELSE One(t, s[1]) \o " " \o Items(t, Tail(s))
Printed(t, s) == "StackVector{ " \o Items(t, s) \o "}"
=============================================================================
