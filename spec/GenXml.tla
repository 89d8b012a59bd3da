------------------------------ MODULE GenXml --------------------------------
(* Histories of changes to documents which are built from nothing or read from a file, and texts which are  *)
(* cut short.                                                                                                *)
EXTENDS Xml, Emit
CONSTANTS Len0, Rich, Mode
VARIABLES h, tree, start
vars == <<h, tree, start>>
R(a, b) == RandomElement(a..b)
RECURSIVE Places(_)
Places(n) == {<<>>} \cup UNION { { <<i>> \o p : p \in Places(n.kids[i]) } : i \in 1..Len(n.kids) }
Texts == <<"x", "text", "y z", "12", "-3", "2.5", "p<q">>
Words == <<"", "v", "12", "-3", "2.5", "red", "green">>
Small(t) == LET P == Places(t) IN
  { [a |-> "add", p |-> p, nm |-> nm] : p \in P, nm \in {"a", "b"} }
  \cup { [a |-> "set", p |-> p, v |-> "x"] : p \in P \ {<<>>} } \cup { [a |-> "app", p |-> p, v |-> "y"] : p \in P \ {<<>>} }
  \cup { [a |-> "attr", p |-> p, k |-> "k", v |-> "12", how |-> 0] : p \in P \ {<<>>} }
Rand(t) ==
  LET p == RandomElement(Places(t)) c == R(1, 12) nm == Names[R(1, 3)] k == Keys[R(1, 3)] IN
  CASE c <= 6 -> [a |-> "add", p |-> p, nm |-> nm]
    [] c <= 8 -> LET w == R(0, 3) IN
                 [a |-> "attr", p |-> p, k |-> k, how |-> w, v |-> IF w = 1 THEN ToString(R(-20, 20)) ELSE IF w = 2 THEN Words[R(6, 7)] ELSE Words[R(1, 7)]]
    [] c <= 10 -> [a |-> "set", p |-> p, v |-> Texts[R(1, 6)]]
    [] OTHER -> [a |-> "app", p |-> p, v |-> Texts[R(1, 6)]]
Style(x) == [ws |-> R(0, 3), q |-> R(0, 2), c |-> R(0, 1), eq |-> R(0, 1), sc |-> R(0, 1), pro |-> R(0, 1)]
RECURSIVE Grow(_, _)
Grow(t, n) == IF n = 0 THEN t ELSE LET q == Rand(t) IN Grow(IF Legal(t, q) THEN Apply(t, q) ELSE t, n - 1)
Init == /\ h = <<>>
        /\ IF Mode = "build" THEN tree = Doc /\ start = [tree |-> Doc, text |-> ""]
           ELSE IF Rich THEN \E t \in {Grow(Apply(Doc, [a |-> "add", p |-> <<>>, nm |-> Names[R(1, 3)]]), R(0, 12))} : tree = t /\ start = [tree |-> t, text |-> DocText(t, Style(1))]
           ELSE \E t1 \in {Apply(Doc, [a |-> "add", p |-> <<>>, nm |-> "ab"])} : \E q1 \in Small(t1) : \E t2 \in {IF Legal(t1, q1) THEN Apply(t1, q1) ELSE t1} : \E q2 \in Small(t2) :
                \E t3 \in {IF Legal(t2, q2) THEN Apply(t2, q2) ELSE t2} : \E s \in [ws : {0, 1}, q : {0}, c : {0, 1}, eq : {0}, sc : {0, 1}, pro : {0}] : tree = t3 /\ start = [tree |-> t3, text |-> DocText(t3, s)]
Take(q) == Legal(tree, q) /\ h' = Append(h, q) /\ tree' = Apply(tree, q) /\ start' = start
Next == /\ Len(h) < Len0 /\ Mode # "cut"
        /\ IF Rich THEN \E q \in {Rand(tree)} : IF Legal(tree, q) THEN Take(q) ELSE Take([a |-> "add", p |-> <<>>, nm |-> Names[R(1, 3)]])
           ELSE \E q \in Small(tree) : Take(q)
Spec == Init /\ [][Next]_vars
\* a document cut short at any place inside its root element, possibly with an end of line after it
RECURSIVE Trim(_, _)
Trim(x, i) == IF i = 0 THEN 0 ELSE IF SubSeq(x, i, i) = ">" THEN i ELSE Trim(x, i - 1)
Ending(x) == LET e == Trim(x, Len(x)) IN e
Cut == LET x == start.text e == Ending(x) f == IF Len(x) > 2 /\ SubSeq(x, 2, 2) = "?" THEN 23 ELSE 1 IN
       IF Len(tree.kids) # 1 THEN TRUE
       ELSE \A k \in { i \in f..(e - 1) : i >= f } : \A z \in {"", "\n"} : Emit([op |-> "cut", text |-> SubSeq(x, 1, k) \o z])
Sound == Unambiguous(tree)
Report == IF Mode = "cut" THEN Cut ELSE (Len(h) = Len0 => Emit([op |-> "history", from |-> Mode, text |-> start.text, tree |-> start.tree, h |-> h])) /\ Sound
=============================================================================
