------------------------------ MODULE GenExpr -------------------------------
(* The space of expressions: a stack machine that pushes leaves and applies operators (reverse Polish). *)
(* Every reachable state with one expression on the stack is one expression of the bounded space; it is *)
(* emitted and executed on the real library.  Breadth-first search visits all of them up to MaxN        *)
(* symbols; simulation samples the larger ones.                                                         *)
EXTENDS Integers, Sequences, FiniteSets, Emit

CONSTANTS Profile,     \* which leaves and operators
          MaxN,        \* number of symbols
          MaxStk,      \* stack height
          Exact,       \* emit only expressions of exactly MaxN symbols
          Op           \* which public call to make on the expression

C(n, d) == [k |-> "c", n |-> n, d |-> d]
V(s) == [k |-> "v", s |-> s]
Arr(s) == [k |-> "arr", x |-> s]
Un(o, a) == [k |-> "u", o |-> o, a |-> a]
Bin(o, l, r) == [k |-> "b", o |-> o, l |-> l, r |-> r]

Leaves ==
  CASE Profile = "alg"  -> { C(0, 1), C(1, 1), C(2, 1), C(-3, 1), C(1, 2), V("x"), V("y") }
    [] Profile = "alg0" -> { C(0, 1), C(1, 1), C(-3, 1), V("x"), V("y") }
    [] Profile = "fun"  -> { C(0, 1), C(1, 1), C(-2, 1), V("x"), V("y") }
    [] Profile = "arr"  -> { C(0, 1), C(1, 1), C(2, 1), V("x"), V("y") }
    [] Profile = "mix"  -> { C(0, 1), C(1, 1), C(2, 1), C(-3, 1), C(1, 2), V("x"), V("y"), V("z") }
    [] Profile = "unit" -> { C(0, 1), C(1, 1), C(2, 1), V("x"), V("m"), V("s") }
    [] Profile = "syn"  -> { C(2, 1), C(-3, 1), C(1, 2), V("x"), V("y"), V("z") }
    [] Profile = "syn0" -> { C(-3, 1), V("x") }
    [] Profile = "eq" -> { C(2, 1), C(0, 1), C(1, 2), V("x"), V("y") }
    [] Profile = "eq0" -> { C(2, 1), V("x") }
    [] Profile = "read" -> { C(2, 1), C(-3, 1), C(5, 4), V("x"), V("y") }
    [] Profile = "flat" -> { V("x"), V("y"), V("z") }
    [] Profile = "py" -> { C(0, 1), C(1, 1), C(2, 1), C(-3, 1), C(1, 2), V("x"), V("y") }
    [] Profile = "pyarr" -> { C(1, 1), C(-2, 1), V("x"), V("y") }
    [] Profile = "ct" -> { C(0, 1), C(1, 1), C(2, 1), C(-3, 1), C(1, 2), V("x"), V("y") }
    [] Profile = "ctp" -> { C(1, 1), C(2, 1), C(3, 1), C(-1, 1), C(1, 2), V("x"), V("y") }
    [] Profile = "ad" -> { C(1, 1), C(2, 1), C(-3, 1), C(1, 2), V("x"), V("x") }
    [] Profile = "tay" -> { C(1, 1), C(2, 1), C(-3, 1), C(1, 2), C(3, 1), V("x"), V("x"), V("y") }
    [] Profile = "int" -> { C(0, 1), C(1, 1), C(-3, 1), C(1, 2), V("x"), V("y"), Bin("^", V("x"), C(3, 1)), Bin("^", V("x"), C(-2, 1)), Bin("^", V("x"), C(1, 1)), Bin("^", V("x"), C(0, 1)), Bin("*", V("y"), V("y")), Un("sin", V("y")), Bin("^", V("y"), C(2, 1)), Bin("^", V("x"), C(-1, 1)), Bin("*", C(2, 1), V("x")) }
    [] Profile = "adx" -> { C(2, 1), V("x"), V("y") }
    [] Profile = "ads" -> { Bin("*", C(720, 1), V("x")), Bin("+", C(1, 1), Bin("*", C(720, 1), V("x"))), V("x"), C(1, 1), C(2, 1), C(-1, 1), C(1, 2), C(0, 1) }
    [] Profile = "iv" -> { C(1, 1), C(2, 1), C(-3, 1), C(1, 2), C(1, 3), C(3, 2), V("x") }
    [] OTHER -> { C(2, 1), V("x") }

UnOps ==
  CASE Profile \in {"alg", "alg0"} -> { "neg" }
    [] Profile = "fun"  -> { "sin", "cos", "exp", "ln", "abs", "arb", "neg" }
    [] Profile = "arr"  -> { "neg", "sin", "abs" }
    [] Profile \in {"mix", "syn", "eq"} -> { "sin", "cos", "exp", "ln", "abs", "arb", "neg" }
    [] Profile \in {"syn0", "eq0"} -> { "sin", "abs", "neg" }
    [] Profile = "read" -> { "sin", "ln", "neg" }
    [] Profile = "unit" -> { "neg", "abs" }
    [] Profile = "py" -> { "neg", "sin", "cos", "exp", "ln" }
    [] Profile = "pyarr" -> { "sin" }
    [] Profile \in {"ad", "ads", "tay"} -> { "sin", "cos", "exp", "ln", "neg" }
    [] Profile = "ct" -> { "sin", "cos", "exp", "ln", "abs", "arb", "neg" }
    [] Profile = "ctp" -> { "neg", "arb" }
    [] Profile = "iv" -> { "neg", "abs" }
    [] Profile = "adx" -> { "sin", "exp", "ln", "neg", "abs", "arb" }
    [] OTHER -> {}

BinOps ==
  CASE Profile \in {"alg", "alg0"} -> { "+", "-", "*", "/", "^" }
    [] Profile = "fun"  -> { "+", "*", "/", "^" }
    [] Profile = "arr"  -> { "+", "-", "*", "/", "^", "idx" }
    [] Profile = "mix"  -> { "+", "-", "*", "/", "^", "=" }
    [] Profile = "unit" -> { "+", "*", "/", "^", "units", "unc" }
    [] Profile \in {"syn", "eq"} -> { "+", "-", "*", "/", "^", "=", "idx", "units", "unc" }
    [] Profile \in {"syn0", "read", "eq0"} -> { "+", "-", "*", "/", "^", "=", "idx", "units", "unc" }
    [] Profile = "py" -> { "+", "-", "*", "/", "^" }
    [] Profile = "pyarr" -> { "+", "-", "*", "/", "=" }
    [] Profile = "flat" -> {}
    [] Profile = "int" -> { "+", "-" }
    [] Profile \in {"ad", "ads", "ct", "ctp", "tay", "iv"} -> { "+", "-", "*", "/", "^" }
    [] Profile = "adx" -> { "+", "-", "*", "/", "^", "=", "idx", "units", "unc" }
    [] OTHER -> { "+" }

\* array literals are built from the topmost entries of the stack
ArrLens == IF Profile \in {"arr", "mix", "syn", "syn0", "read", "eq", "eq0", "pyarr", "adx"} THEN 0..5 ELSE IF Profile = "flat" THEN {1, 2, 4, 5} ELSE {}
\* dictionaries: distinct variable keys, values from the stack
DictKeys == IF Profile \in {"mix", "syn", "syn0", "read", "eq", "eq0", "pyarr", "adx"} THEN { <<"x">>, <<"y">>, <<"x", "z">>, <<>> } ELSE {}
Dict(ks, vs) == [k |-> "dict", m |-> [i \in 1..Len(ks) |-> <<V(ks[i]), vs[i]>>]]

VARIABLES stk, sz
vars == <<stk, sz>>

Init == stk = <<>> /\ sz = 0
Top(i) == SubSeq(stk, Len(stk) - i + 1, Len(stk))
Rest(i) == SubSeq(stk, 1, Len(stk) - i)

Push == \E f \in Leaves : Len(stk) < MaxStk /\ stk' = Append(stk, f)
ApplyUn == \E o \in UnOps : Len(stk) >= 1 /\ stk' = Append(Rest(1), Un(o, stk[Len(stk)]))
ApplyBin == \E o \in BinOps : Len(stk) >= 2 /\ stk' = Append(Rest(2), Bin(o, stk[Len(stk) - 1], stk[Len(stk)]))
MakeArr == \E i \in ArrLens : Len(stk) >= i /\ Len(stk) - i < MaxStk /\ stk' = Append(Rest(i), Arr(Top(i)))
MakeDict == \E ks \in DictKeys : Len(stk) >= Len(ks) /\ Len(stk) - Len(ks) < MaxStk
                                 /\ stk' = Append(Rest(Len(ks)), Dict(ks, Top(Len(ks))))

\* the stack must still be reducible to one expression
Reducible == Profile = "flat" \/ sz' + (Len(stk') - 1) <= MaxN
Next == /\ sz < MaxN
        /\ sz' = sz + 1
        /\ Push \/ ApplyUn \/ ApplyBin \/ MakeArr \/ MakeDict
        /\ Reducible
Spec == Init /\ [][Next]_vars

\* the calls made on each expression
Rel(s, e) == Bin("=", V(s), e)
Subs == { Rel("x", C(2, 1)), Rel("x", V("y")), Rel("y", Bin("+", V("x"), V("y"))), Rel("x", Bin("*", V("x"), V("x"))),
          Rel("x", Arr(<<V("y"), C(1, 1)>>)), Rel("z", C(0, 1)),
          Dict(<<"x", "y">>, <<V("y"), V("x")>>), Dict(<<"x", "y">>, <<C(0, 1), Bin("-", V("x"), C(1, 1))>>),
          Dict(<<"x", "z", "y">>, <<V("z"), V("x"), C(-3, 1)>>), Dict(<<"x">>, <<Un("sin", V("y"))>>), Dict(<<>>, <<>>),
          \* replacements that are or mention keys: the substitution is simultaneous
          Dict(<<"x", "y">>, <<V("y"), V("z")>>), Dict(<<"y", "x">>, <<C(2, 1), V("y")>>), Dict(<<"x", "y", "z">>, <<V("y"), V("z"), V("x")>>),
          Dict(<<"x", "y">>, <<Bin("+", V("x"), V("y")), Bin("*", V("x"), C(3, 1))>>) }
Calls(e) ==
  CASE Op = "sub"   -> { [op |-> "sub", e |-> e, s |-> s] : s \in Subs }
    [] Op = "sub1"  -> { [op |-> "sub", e |-> e, s |-> s] : s \in { Rel("x", Bin("+", V("y"), C(2, 1))), Dict(<<"x", "y">>, <<V("y"), V("x")>>) } }
    [] Op = "deriv" -> { [op |-> "deriv", e |-> e, x |-> V(v)] : v \in {"x", "y"} }
    [] OTHER        -> { [op |-> Op, e |-> e] }
Report == (Len(stk) = 1 /\ (Exact => sz = MaxN)) => \A c \in Calls(stk[1]) : Emit(c)
=============================================================================
