------------------------------ MODULE GenTools ------------------------------
(* Histories of operations on compile-time lists and error messages; option lists; texts to be edited.      *)
EXTENDS Tools, Emit
CONSTANTS Mode, Len0, Rich
VARIABLES h, st
vars == <<h, st>>
R(a, b) == RandomElement(a..b)
Lst(x) == [i \in 1..R(0, 5) |-> R(0, 9)] \o <<>>
ListAct(s) ==
  LET c == R(1, 16) v == R(0, 9) i == R(0, Len(s) + 1) IN
  CASE c <= 2 -> [a |-> "rev"] [] c <= 5 -> [a |-> "rep", i |-> IF i < Len(s) THEN i ELSE 0, v |-> v] [] c <= 7 -> [a |-> "app", v |-> v] [] c <= 9 -> [a |-> "pre", v |-> v]
    [] c <= 11 -> [a |-> "merge", l |-> Lst(1)] [] c = 12 -> [a |-> "premerge", l |-> Lst(1)] [] c <= 14 -> [a |-> "head", i |-> i] [] OTHER -> [a |-> "tail", i |-> i]
SmallList(s) == { [a |-> "rev"] } \cup { [a |-> "rep", i |-> i, v |-> 7] : i \in 0..(Len(s) - 1) } \cup { [a |-> "app", v |-> 8], [a |-> "pre", v |-> 9], [a |-> "merge", l |-> <<5, 6>>] }
                \cup { [a |-> b, i |-> i] : b \in {"head", "tail"}, i \in 0..(Len(s) + 1) }
Parts == <<"", "bad ", "x=", "a longer piece of text than the others ", "\n", "end">>
ExcAct(s) == LET c == R(1, 10) IN IF c <= 4 THEN [a |-> "put", x |-> Parts[R(1, 6)]] ELSE IF c <= 6 THEN [a |-> "num", n |-> R(-50, 50)] ELSE IF c = 7 THEN [a |-> "copy"] ELSE IF c <= 9 THEN [a |-> "throw"] ELSE [a |-> "what"]
SmallExc == { [a |-> "put", x |-> "abc"], [a |-> "num", n |-> 42], [a |-> "copy"], [a |-> "throw"], [a |-> "what"] }
Alpha == <<"a", "b", " ", "\t", "ab", "e+", "e", "-">>
RECURSIVE Txt(_)
Txt(n) == IF n = 0 THEN "" ELSE Alpha[R(1, 8)] \o Txt(n - 1)
Chars == {"a", "b", " ", "\t"}
Opts == <<"A", "B", "C">>
Init == /\ h = <<>>
        /\ CASE Mode = "list" -> IF Rich THEN \E s \in {Lst(1)} : st = s ELSE st \in { <<>>, <<1>>, <<1, 2>>, <<1, 2, 3>> }
             [] OTHER -> st = <<>>
Next == /\ Len(h) < Len0
        /\ CASE Mode = "list" -> (IF Rich THEN \E q \in {ListAct(ListRun(st, h, 1))} : ListLegal(ListRun(st, h, 1), q) /\ h' = Append(h, q) ELSE \E q \in SmallList(ListRun(st, h, 1)) : h' = Append(h, q)) /\ st' = st
             [] Mode = "error" -> (IF Rich THEN \E q \in {ExcAct(h)} : h' = Append(h, q) ELSE \E q \in SmallExc : h' = Append(h, q)) /\ st' = st
             [] Mode = "option" -> (IF Rich THEN \E q \in {<<Opts[R(1, 3)], R(-3, 9)>>} : h' = Append(h, q) ELSE \E q \in {"A", "B", "C"} \X {2, 5} : h' = Append(h, q)) /\ st' = st
             [] Mode = "text" -> (\E ch \in Chars : h' = Append(h, ch)) /\ st' = st
             [] OTHER -> (\E q \in {<<Txt(R(0, 12)), Txt(R(1, 2)), Txt(R(0, 3))>>} : h' = Append(h, q)) /\ st' = st
Spec == Init /\ [][Next]_vars
RECURSIVE Cat(_, _)
Cat(s, i) == IF i > Len(s) THEN "" ELSE s[i] \o Cat(s, i + 1)
Report ==
  CASE Mode = "list" -> (Len(h) = Len0 => Emit([op |-> "list", s |-> st, h |-> h]))
    [] Mode = "error" -> (Len(h) = Len0 => Emit([op |-> "error", h |-> h]))
    [] Mode = "option" -> (Rich => Len(h) = Len0) => Emit([op |-> "option", o |-> h])
    [] Mode = "text" -> \A ws \in {" \t", "a", "ab "} : Emit([op |-> "text", x |-> Cat(h, 1), ws |-> ws, from |-> IF Len(h) % 2 = 0 THEN "a" ELSE "ab", to |-> IF ws = "a" THEN "" ELSE IF ws = "ab " THEN "aa" ELSE "x"])
    [] OTHER -> \A i \in 1..Len(h) : Emit([op |-> "text", x |-> h[i][1], ws |-> " \t", from |-> h[i][2], to |-> h[i][3]])
=============================================================================
