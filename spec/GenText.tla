------------------------------ MODULE GenText -------------------------------
(* The space of formula texts.                                                                          *)
(*  Mode "chars": every sequence of characters of an alphabet.                                           *)
(*  Mode "grow":  a text grows token by token along the grammar: open is the stack of open brackets, want  *)
(*                tells whether an operand or an operator is due.  Every state is a text; those that are *)
(*                complete are formulas, the others are truncated ones.                                  *)
(*  Mode "mutate": a text is grown, and then one or two of its tokens are deleted, doubled, swapped or   *)
(*                replaced.                                                                              *)
EXTENDS Syntax, Emit

CONSTANTS Mode, Alpha, MaxN, Exact

VARIABLES toks, open, want, sz, muts
vars == <<toks, open, want, sz, muts>>

Chars ==
  CASE Alpha = "all"  -> { "1", ".", "e", "x", "+", "-", "*", "^", "(", ")", "[", "]", "{", "}", ",", ":", "=", " ", "+-", "$" }
    [] Alpha = "some" -> { "1", "x", "+", "-", "^", "(", ")", "[", "]", "{", "}", ",", ":" }
    [] Alpha = "num"  -> { "1", "0", ".", "e", "+", "-", " ", "E" }
    [] Alpha = "odd"  -> { "1", "x", "+", "$", "#", "_", "<c3><a9>", "|", "'", "\\", "\"", "@", ".", ";", "!", "%", "&", "<", "?", "~", "`", "<c2><b2>", "<c2>", "<ff>" }
    [] OTHER -> { "1", "x", "+", "*" }

Operands ==
  CASE Alpha = "deep"  -> { <<"2">>, <<"x">> }
    [] Alpha = "num"   -> { <<"1">>, <<"1", ".", "5">>, <<"2", "e", "1">>, <<"1", ".", "5", "e", "-", "1">>, <<"0", "0", "7">>, <<"3", ".">>,
                            <<"1", "E", "+", "2">>, <<"1", "e", "3", "0", "9">>, <<"x">> }
    [] OTHER -> { <<"2">>, <<"x">>, <<"y">> }
Infix ==
  CASE Alpha = "deep" -> { "+", "-", "*", "^" }
    [] Alpha = "sum"  -> { "+", "-", "*", "/" }
    [] OTHER -> { "+", "-", "*", "/", "^", "=", "+-" }
Funs == CASE Alpha = "deep" -> {} [] OTHER -> { <<"s", "i", "n">>, <<"l", "n">> }
Brackets == Alpha \notin {"sum"}

Init == toks = <<>> /\ open = <<>> /\ want = "operand" /\ sz = 0 /\ muts = 0
Put(t) == toks' = Append(toks, t)
Due(w) == want' = w
Grow ==
  \/ want = "operand" /\ \E o \in Operands : Put(o) /\ Due("operator") /\ UNCHANGED open
  \/ want = "operand" /\ \E o \in {"+", "-"} : Put(<<o>>) /\ Due("operand") /\ UNCHANGED open
  \/ want = "operand" /\ \E f \in Funs : Put(f) /\ Due("operand") /\ UNCHANGED open
  \/ want = "operator" /\ \E o \in Infix : Put(<<o>>) /\ Due("operand") /\ UNCHANGED open
  \/ Brackets /\ want = "operand" /\ Put(<<"(">>) /\ Due("operand") /\ open' = Append(open, ")")
  \/ Brackets /\ want = "operand" /\ Put(<<"[">>) /\ Due("operand") /\ open' = Append(open, ",]")
  \/ Brackets /\ want = "operand" /\ Put(<<"{">>) /\ Due("operand") /\ open' = Append(open, ":")
  \/ Brackets /\ want = "operator" /\ Put(<<"[">>) /\ Due("operand") /\ open' = Append(open, "]")
  \/ Brackets /\ want = "operator" /\ Put(<<"{">>) /\ Due("operand") /\ open' = Append(open, "}")
  \/ want = "operator" /\ open # <<>>
     /\ LET c == open[Len(open)] pop == SubSeq(open, 1, Len(open) - 1) IN
        \/ c = ")" /\ Put(<<")">>) /\ Due("operator") /\ open' = pop
        \/ c \in {"]", ",]"} /\ Put(<<"]">>) /\ Due("operator") /\ open' = pop
        \/ c \in {"}", ",}"} /\ Put(<<"}">>) /\ Due("operator") /\ open' = pop
        \/ c \in {",]"} /\ Put(<<",">>) /\ Due("operand") /\ UNCHANGED open
        \/ c = ":" /\ Put(<<":">>) /\ Due("operand") /\ open' = Append(pop, ",}")
        \/ c = ",}" /\ Put(<<",">>) /\ Due("operand") /\ open' = Append(pop, ":")

AllTokens == Operands \cup Funs \cup { <<o>> : o \in Infix } \cup { <<b>> : b \in {"(", ")", "[", "]", "{", "}", ",", ":"} }
Mutate ==
  /\ sz = MaxN /\ muts < 2
  /\ muts' = muts + 1
  /\ UNCHANGED <<open, want, sz>>
  /\ \E i \in 1..Len(toks) :
       \/ toks' = SubSeq(toks, 1, i - 1) \o SubSeq(toks, i + 1, Len(toks))
       \/ toks' = SubSeq(toks, 1, i) \o SubSeq(toks, i, Len(toks))
       \/ i < Len(toks) /\ toks' = SubSeq(toks, 1, i - 1) \o <<toks[i + 1], toks[i]>> \o SubSeq(toks, i + 2, Len(toks))
       \/ \E t \in AllTokens : toks' = [toks EXCEPT ![i] = t]

Next ==
  \/ /\ Mode = "chars" /\ sz < MaxN /\ sz' = sz + 1 /\ \E c \in Chars : Put(<<c>>)
     /\ UNCHANGED <<open, want, muts>>
  \/ /\ Mode # "chars" /\ sz < MaxN /\ sz' = sz + 1 /\ Grow
     /\ Len(open') <= MaxN - sz'               \* the brackets can still be closed
     /\ UNCHANGED muts
  \/ Mode = "mutate" /\ Mutate
Spec == Init /\ [][Next]_vars

RECURSIVE Join(_, _, _)
NeedsSpace(a, b) == (IsAlpha(a[Len(a)]) \/ IsDigit(a[Len(a)]) \/ a[Len(a)] = ".") /\ (IsAlpha(b[1]) \/ IsDigit(b[1]))
Join(ts, i, sp) == IF i > Len(ts) THEN <<>>
                   ELSE ts[i] \o (IF i = Len(ts) THEN <<>> ELSE IF sp \/ NeedsSpace(ts[i], ts[i + 1]) THEN <<" ">> ELSE <<>>) \o Join(ts, i + 1, sp)

Cmd(t) == LET e == Parse(t) IN IF e = NoParse THEN [op |-> "parsecmp", t |-> t] ELSE [op |-> "parsecmp", t |-> t, e |-> e]
RECURSIVE Flat(_, _)
Flat(ts, i) == IF i > Len(ts) THEN <<>> ELSE ts[i] \o Flat(ts, i + 1)
Report ==
  CASE Mode = "chars" -> Emit(Cmd(Flat(toks, 1)))
    [] OTHER -> (sz = MaxN \/ ~Exact) /\ (Mode = "grow" \/ muts > 0) => Emit(Cmd(Join(toks, 1, sz % 3 = 0)))
=============================================================================
