------------------------------- MODULE Xml ----------------------------------
(* XML documents as trees.  An element has a name, a text, a sequence of attributes and a sequence of child  *)
(* elements; the document is an unnamed element holding the root elements.  A place in the tree is the       *)
(* sequence of child positions leading to it.                                                                *)
EXTENDS Integers, Sequences, TLC
Names == <<"a", "ab", "b">>
Keys == <<"k", "kk", "m">>
El(nm) == [nm |-> nm, val |-> "", at |-> <<>>, kids |-> <<>>]
Doc == El("")
RECURSIVE At(_, _)
At(t, p) == IF p = <<>> THEN t ELSE At(t.kids[p[1]], Tail(p))
RECURSIVE Put(_, _, _)
Put(t, p, n) == IF p = <<>> THEN n ELSE [t EXCEPT !.kids[p[1]] = Put(t.kids[p[1]], Tail(p), n)]
\* ----- changes
Apply(t, q) ==
  LET n == At(t, q.p) IN
  CASE q.a = "add" -> Put(t, q.p, [n EXCEPT !.kids = Append(n.kids, El(q.nm))])
    [] q.a = "attr" -> Put(t, q.p, [n EXCEPT !.at = Append(n.at, <<q.k, q.v>>)])
    [] q.a = "set" -> Put(t, q.p, [n EXCEPT !.val = q.v])
    [] q.a = "app" -> Put(t, q.p, [n EXCEPT !.val = n.val \o q.v])
    [] OTHER -> t
\* text and children are not mixed, and only the document itself has neither text nor attributes
Legal(t, q) ==
  LET n == At(t, q.p) IN
  CASE q.a = "add" -> n.val = ""
    [] q.a \in {"set", "app"} -> q.p # <<>> /\ n.kids = <<>>
    [] OTHER -> q.p # <<>>
\* ----- what can be asked
RECURSIVE Pick(_, _, _)
\* positions of the children with a given name, in document order
Pick(s, nm, i) == IF i > Len(s) THEN <<>> ELSE (IF s[i].nm = nm THEN <<i>> ELSE <<>>) \o Pick(s, nm, i + 1)
RECURSIVE Value(_, _, _)
\* the first attribute of a name counts
Value(s, k, i) == IF i > Len(s) THEN "(none)" ELSE IF s[i][1] = k THEN s[i][2] ELSE Value(s, k, i + 1)
\* an attribute can be read as text, whole number, number or one of a list of choices, where its text is one
Whole == { ToString(n) : n \in (-20)..20 }
Choices == <<"red", "green">>
Read(v, path) == IF v = "(none)" THEN <<>>
                 ELSE <<v, IF v \in Whole THEN v ELSE "(error)", IF v \in Whole \cup {"2.5"} THEN v ELSE "(error)",
                        IF \E i \in 1..2 : Choices[i] = v THEN ToString(CHOOSE i \in 1..2 : Choices[i] = v) ELSE "(error)", path>>
\* the index among the namesakes is shown when there are any
Step(n, same, j) == "/" \o n.nm \o (IF Len(same) = 1 THEN "" ELSE "[" \o ToString(j - 1) \o "]")
RECURSIVE View(_, _, _)
\* an element, its place and the places of its ancestors
View(n, path, up) ==
  [nm |-> n.nm, val |-> n.val, path |-> path, up |-> up,
   at |-> [i \in 1..Len(Keys) |-> Read(Value(n.at, Keys[i], 1), path \o "/@" \o Keys[i])] \o <<>>,
   first |-> IF n.kids = <<>> THEN "(none)" ELSE n.kids[1].nm,
   kids |-> [i \in 1..Len(Names) |->
               LET same == Pick(n.kids, Names[i], 1) IN
               [j \in 1..Len(same) |-> LET m == n.kids[same[j]] IN View(m, path \o Step(m, same, j), <<path>> \o up)] \o <<>>] \o <<>>]
Top == "/[0]"
RootView(t) == [i \in 1..Len(Names) |->
               LET same == Pick(t.kids, Names[i], 1) IN
               IF same = <<>> THEN <<>> ELSE [j \in 1..Len(same) |-> View(t.kids[same[j]], Top \o Step(t.kids[same[j]], same, j), <<Top>>)] \o <<>>] \o <<>>
\* ----- as text.  A style is a sequence of numbers, each choosing among the spellings of one feature.
Space(s) == CASE s.ws = 0 -> "" [] s.ws = 1 -> "\n" [] s.ws = 2 -> "  " [] s.ws = 3 -> "\n\t"
Quote(s, i) == IF (s.q + i) % 3 = 1 THEN "'" ELSE "\""
Note(s, d) == IF s.c = 1 /\ d % 2 = 1 THEN "<!-- <a>no\n</b> -->" ELSE ""
RECURSIVE AttrText(_, _, _)
AttrText(n, s, i) == IF i > Len(n.at) THEN "" ELSE " " \o n.at[i][1] \o (IF s.eq = 1 THEN " = " ELSE "=") \o Quote(s, i) \o n.at[i][2] \o Quote(s, i) \o AttrText(n, s, i + 1)
RECURSIVE Text(_, _, _), KidsText(_, _, _, _)
KidsText(n, s, d, i) == IF i > Len(n.kids) THEN "" ELSE Text(n.kids[i], s, d) \o Space(s) \o KidsText(n, s, d, i + 1)
Text(n, s, d) ==
  "<" \o n.nm \o AttrText(n, s, 1) \o
  (IF n.kids = <<>> /\ n.val = "" /\ s.sc = 1 THEN "/>"
   ELSE ">" \o Space(s) \o Note(s, d) \o n.val \o KidsText(n, s, d + 1, 1) \o Space(s) \o "</" \o n.nm \o ">")
DocText(t, s) == (IF s.pro = 1 THEN "<?xml version=\"1.0\"?>\n" ELSE "") \o KidsText(t, s, 0, 1)
\* the plain spelling, which printing uses
Plain == [ws |-> 0, q |-> 2, c |-> 0, eq |-> 0, sc |-> 1, pro |-> 0]
RECURSIVE PlainText(_), PlainKids(_, _)
PlainKids(n, i) == IF i > Len(n.kids) THEN "" ELSE PlainText(n.kids[i]) \o PlainKids(n, i + 1)
RECURSIVE PlainAttrs(_, _)
PlainAttrs(n, i) == IF i > Len(n.at) THEN "" ELSE " " \o n.at[i][1] \o "=\"" \o n.at[i][2] \o "\"" \o PlainAttrs(n, i + 1)
PlainText(n) == "<" \o n.nm \o PlainAttrs(n, 1) \o (IF n.kids = <<>> /\ n.val = "" THEN "/>" ELSE ">" \o n.val \o PlainKids(n, 1) \o "</" \o n.nm \o ">")
Printed(t) == PlainKids(t, 1)
\* ----- places in a text
RECURSIVE Lines(_, _), Column(_, _)
Lines(x, i) == IF i > Len(x) THEN 1 ELSE (IF SubSeq(x, i, i) = "\n" THEN 1 ELSE 0) + Lines(x, i + 1)
Column(x, i) == IF i = 0 THEN 0 ELSE IF SubSeq(x, i, i) = "\n" THEN 0 ELSE 1 + Column(x, i - 1)
\* ----- soundness of the model: places are unambiguous
RECURSIVE Paths(_)
RECURSIVE Flat(_, _)
Flat(s, i) == IF i > Len(s) THEN <<>> ELSE s[i] \o Flat(s, i + 1)
Paths(v) == <<v.path>> \o Flat([i \in 1..Len(v.kids) |-> Flat([j \in 1..Len(v.kids[i]) |-> Paths(v.kids[i][j])] \o <<>>, 1)] \o <<>>, 1)
AllPaths(t) == LET rv == RootView(t) IN Flat([i \in 1..Len(rv) |-> Flat([j \in 1..Len(rv[i]) |-> Paths(rv[i][j])] \o <<>>, 1)] \o <<>>, 1)
Unambiguous(t) == LET ps == AllPaths(t) IN \A i, j \in 1..Len(ps) : i # j => ps[i] # ps[j]
=============================================================================
