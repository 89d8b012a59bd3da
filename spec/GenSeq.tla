------------------------------ MODULE GenSeq --------------------------------
(* Histories of operations on bounded sequences: all short ones over a small alphabet, long random ones   *)
(* over the full one.                                                                                      *)
EXTENDS Seqs, Emit
CONSTANTS Len0, Rich, Debug
VARIABLES h, st, typ
vars == <<h, st, typ>>
R(a, b) == RandomElement(a..b)
Act(a, v) == [a |-> a, v |-> v]
Small(s) == { Act("init", 0) @@ [l |-> <<5, 6>>], Act("init", 1) @@ [l |-> <<7, 8, 9>>] }
       \cup { Act("push", v) @@ [x |-> 1 + v + Len(h)] : v \in {0, 1} } \cup { Act("pop", v) : v \in {0, 1, 4} }
       \cup { Act("ext", v) @@ [w |-> w] : v \in {0, 1}, w \in {0, 1, 4} } \cup { Act("copy", 1) @@ [w |-> w] : w \in {0, 1, 4} }
       \cup { Act("set", 1) @@ [k |-> Len(s[2]) - 1, x |-> 3, how |-> 3] : z \in IF s[2] = <<>> THEN {} ELSE {1} }
       \cup { Act("swap", 1), Act("eq", 1) }
Rand(s) ==
  LET v == R(0, 3) w == R(0, 4) n == R(0, 8) c == R(1, 24) x == R(0, 9) IN
  CASE c <= 2 -> Act("init", v) @@ [l |-> [i \in 1..n |-> (x + 3 * i * i) % 10] \o <<>>]
    [] c <= 9 -> Act("push", IF R(1, 12) = 1 THEN w ELSE v) @@ [x |-> x]
    [] c <= 13 -> Act("pop", IF R(1, 12) = 1 THEN w ELSE v)
    [] c <= 16 -> Act("ext", v) @@ [w |-> w]
    [] c <= 18 -> IF Cap[w + 1] <= Cap[v + 1] THEN Act("copy", v) @@ [w |-> w] ELSE Act("copy", w) @@ [w |-> v]
    [] c <= 21 /\ s[v + 1] # <<>> -> LET k == R(0, Len(s[v + 1]) - 1) hw == R(0, 4) IN Act("set", v) @@ [k |-> k, x |-> x, how |-> IF hw = 3 /\ k # Len(s[v + 1]) - 1 THEN 1 ELSE hw]
    [] c = 22 -> Act("swap", 1)
    [] c = 23 -> Act("sort", v)
    [] OTHER -> Act("eq", 1)
Init == h = <<>> /\ st = Empty /\ typ \in IF Rich THEN {"int", "str", "pair", "tuple"} ELSE {"int", "str"}
Take(q) == /\ Legal(st, q) /\ (Debug \/ ~Beyond(st, q))
           /\ h' = Append(h, q) /\ st' = (IF ~Beyond(st, q) THEN Apply(st, q) ELSE IF q.a = "ext" THEN [st EXCEPT ![q.v + 1] = <<-1>>] ELSE st)
\* after a refused extension the contents are only bounded: start that vector afresh
Unsure == Debug /\ h # <<>> /\ h[Len(h)].a = "ext" /\ st[h[Len(h)].v + 1] = <<-1>>
Next == /\ Len(h) < Len0 /\ typ' = typ
        /\ IF Unsure THEN Take(Act("init", h[Len(h)].v) @@ [l |-> <<1>>])
           ELSE IF Rich THEN \E q \in {Rand(st)} : IF Legal(st, q) /\ (Debug \/ ~Beyond(st, q)) THEN Take(q) ELSE Take(Act("eq", 1))
           ELSE \E q \in Small(st) : Take(q)
Spec == Init /\ [][Next]_vars
Report == (Len(h) = Len0 => Emit([op |-> "history", t |-> typ, h |-> h])) /\ (Unsure \/ WithinCapacity(st))
=============================================================================
