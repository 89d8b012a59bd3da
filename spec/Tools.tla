------------------------------ MODULE Tools ---------------------------------
(* The helpers the library is written with: lists and options known at compile time, texts, error messages. *)
EXTENDS Integers, Sequences, TLC
\* ----- lists
Rev(s) == [i \in 1..Len(s) |-> s[Len(s) + 1 - i]] \o <<>>
ListStep(s, q) ==
  CASE q.a = "rev" -> Rev(s)
    [] q.a = "rep" -> IF s = <<>> THEN s ELSE [s EXCEPT ![q.i + 1] = q.v]
    [] q.a = "app" -> Append(s, q.v)
    [] q.a = "pre" -> <<q.v>> \o s
    [] q.a = "merge" -> s \o q.l
    [] q.a = "premerge" -> q.l \o s
    [] q.a = "head" -> SubSeq(s, 1, IF q.i < Len(s) THEN q.i ELSE Len(s))
    [] q.a = "tail" -> SubSeq(s, q.i + 1, Len(s))
ListLegal(s, q) == q.a = "rep" => s = <<>> \/ q.i < Len(s)
RECURSIVE ListRun(_, _, _)
ListRun(s, h, i) == IF i > Len(h) THEN s ELSE ListRun(ListStep(s, h[i]), h, i + 1)
\* ----- options: the first given one of a kind counts, else the default
RECURSIVE Option(_, _, _, _)
Option(s, id, default, i) == IF i > Len(s) THEN default ELSE IF s[i][1] = id THEN s[i][2] ELSE Option(s, id, default, i + 1)
Present(s, id, v) == \E i \in 1..Len(s) : s[i] = <<id, v>>
AllOf(s, ids) == \A i \in 1..Len(s) : \E k \in 1..Len(ids) : ids[k] = s[i][1]
\* ----- texts
Ch(x, i) == SubSeq(x, i, i)
In(ws, ch) == \E i \in 1..Len(ws) : Ch(ws, i) = ch
RECURSIVE DropFront(_, _), DropBack(_, _)
DropFront(x, ws) == IF x = "" THEN "" ELSE IF In(ws, Ch(x, 1)) THEN DropFront(SubSeq(x, 2, Len(x)), ws) ELSE x
DropBack(x, ws) == IF x = "" THEN "" ELSE IF In(ws, Ch(x, Len(x))) THEN DropBack(SubSeq(x, 1, Len(x) - 1), ws) ELSE x
Strip(x, ws) == DropBack(DropFront(x, ws), ws)
RECURSIVE Swap(_, _, _)
\* leftmost occurrences first, never inside what was put in: the text and how often
Swap(x, from, to) ==
  IF Len(x) < Len(from) THEN <<x, 0>>
  ELSE IF SubSeq(x, 1, Len(from)) = from THEN LET r == Swap(SubSeq(x, Len(from) + 1, Len(x)), from, to) IN <<to \o r[1], 1 + r[2]>>
  ELSE LET r == Swap(SubSeq(x, 2, Len(x)), from, to) IN <<Ch(x, 1) \o r[1], r[2]>>
\* ----- error messages: whatever is streamed in, wherever the error has been copied or thrown to meanwhile
RECURSIVE Message(_, _, _)
Message(h, i, n) == IF i > n THEN "" ELSE (IF h[i].a = "put" THEN h[i].x ELSE IF h[i].a = "num" THEN ToString(h[i].n) ELSE "") \o Message(h, i + 1, n)
=============================================================================
