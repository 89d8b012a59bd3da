-------------------------------- MODULE Sem --------------------------------
(* Abstract syntax and denotational semantics of stator expressions.                                    *)
(*  expression   [k |-> "c", r |-> residue] constant       [k |-> "v", s |-> name] variable              *)
(*               [k |-> "u", o |-> op, a |-> e]            [k |-> "b", o |-> op, l |-> e, r |-> e]        *)
(*               [k |-> "arr", x |-> <<e...>>]             [k |-> "dict", m |-> << <<key, e>> ... >>]     *)
(* A value is  <<"s", m, d>>  a scalar m with derivative d (dual number), <<"a", <<values>>>> an array,   *)
(*             <<"e", l, r>> an equation, <<"d", <<pairs>>>> a dictionary, <<"x">> meaningless/mismatch.  *)
EXTENDS Field

CONSTANT UnitMode        \* "prod": q{u} denotes q*u;  "erase": q{u} denotes q  (both are homomorphisms)

S(m, d) == <<"s", m, d>>
Und == <<"s", Bot, 0>>
Bad == <<"x">>

V1(t, a) ==                                 \* unary operations on dual scalars
  LET m == a[2] d == a[3] IN
  CASE t = "sin" -> S(FSin(m), FMul(d, FCos(m)))
    [] t = "cos" -> S(FCos(m), FNeg(FMul(d, FSin(m))))
    [] t = "exp" -> S(FExp(m), FMul(d, FExp(m)))
    [] t = "ln"  -> S(FLn(m), FDiv(d, m))
    [] t = "abs" -> S(FAbs(m), FDiv(FMul(d, FAbs(m)), m))
    [] t = "arb" -> S(m, d)                 \* the branch +|u| := u ; the branch -u is its mirror image
    [] t = "neg" -> S(FNeg(m), FNeg(d))

PowDeriv(a, b) ==
  LET first  == FMul(FMul(b[2], a[3]), FPow(a[2], FSub(b[2], 1)))
      second == FMul(FMul(b[3], FLn(a[2])), FPow(a[2], b[2]))
  IN FAdd(first, second)

V2(t, a, b) ==                              \* binary operations on dual scalars
  LET am == a[2] ad == a[3] bm == b[2] bd == b[3] IN
  IF am < 0 \/ bm < 0 THEN Und ELSE
  CASE t = "+" -> S(FAdd(am, bm), FAdd(ad, bd))
    [] t = "-" -> S(FSub(am, bm), FSub(ad, bd))
    [] t = "*" -> S(FMul(am, bm), FAdd(FMul(ad, bm), FMul(am, bd)))
    [] t = "/" -> LET q == FDiv(am, bm) IN IF q < 0 THEN Und ELSE S(q, FDiv(FSub(ad, FMul(q, bd)), bm))
    [] t = "^" -> S(FPow(am, bm), PowDeriv(a, b))
    [] t = "units" -> IF UnitMode = "erase" THEN a ELSE S(FMul(am, bm), FMul(ad, bm))
    [] t = "unc" -> S(FUnc(am, bm), IF ad = 0 /\ bd = 0 THEN 0 ELSE Bot)
    [] t = "idx" -> S(FIdx(am, bm), IF ad = 0 /\ bd = 0 THEN 0 ELSE Bot)

RECURSIVE L1(_, _), L2(_, _, _), Eval(_, _)
L1(t, a) == CASE a[1] = "s" -> V1(t, a)
              [] a[1] = "a" -> <<"a", [i \in 1..Len(a[2]) |-> L1(t, a[2][i])]>>
              [] OTHER -> Bad
L2(t, a, b) ==
  CASE t = "=" -> <<"e", a, b>>
    [] t = "idx" /\ a[1] = "a" ->
         IF b[1] = "s" /\ b[2] >= 0 /\ b[2] < Len(a[2]) THEN a[2][b[2] + 1] ELSE Bad
    [] t = "units" /\ UnitMode = "erase" -> a
    [] OTHER ->
         CASE a[1] = "s" /\ b[1] = "s" -> V2(t, a, b)
           [] a[1] = "a" /\ b[1] = "s" -> <<"a", [i \in 1..Len(a[2]) |-> L2(t, a[2][i], b)]>>
           [] a[1] = "s" /\ b[1] = "a" -> <<"a", [i \in 1..Len(b[2]) |-> L2(t, a, b[2][i])]>>
           [] a[1] = "a" /\ b[1] = "a" ->
                IF Len(a[2]) # Len(b[2]) THEN Bad
                ELSE <<"a", [i \in 1..Len(a[2]) |-> L2(t, a[2][i], b[2][i])]>>
           [] OTHER -> Bad

\* the library's placeholder for the derivative of an array access is the access itself (see DESIGN.md)
RECURSIVE DerivIsSelf(_)
DerivIsSelf(v) == CASE v[1] = "s" -> S(v[2], v[2])
                    [] v[1] = "a" -> <<"a", [i \in 1..Len(v[2]) |-> DerivIsSelf(v[2][i])]>>
                    [] OTHER -> v

(* env maps a variable name to its value; undeclared variables are an error of the caller *)
Eval(e, env) ==
  CASE e.k = "c" -> S(IF "r" \in DOMAIN e THEN e.r ELSE FRat(e.n, e.d), 0)
    [] e.k = "v" -> env[e.s]
    [] e.k = "u" -> L1(e.o, Eval(e.a, env))
    [] e.k = "b" -> IF e.o = "units" /\ UnitMode = "erase" THEN Eval(e.l, env)
                    ELSE IF e.o = "idx" /\ env["_"][2] = 1 THEN DerivIsSelf(L2(e.o, Eval(e.l, env), Eval(e.r, env)))
                    ELSE L2(e.o, Eval(e.l, env), Eval(e.r, env))
    [] e.k = "arr" -> <<"a", [i \in 1..Len(e.x) |-> Eval(e.x[i], env)]>>
    [] e.k = "dict" -> <<"d", [i \in 1..Len(e.m) |-> <<e.m[i][1].s, Eval(e.m[i][2], env)>>]>>
    [] OTHER -> Und                         \* inf, nan

(* Two values agree: equal wherever the reference value v is defined.  Comparison "m": w has the value  *)
(* of v.  Comparison "d": w has the value of the derivative of v.                                       *)
RECURSIVE Agree(_, _, _)
Agree(mode, v, w) ==
  CASE v[1] = "x" -> TRUE
    [] v[1] = "s" -> LET want == IF mode = "m" THEN v[2] ELSE IF v[2] < 0 THEN Bot ELSE v[3] IN
                     \/ want < 0
                     \/ w[1] = "s" /\ w[2] = want
    [] v[1] = "a" -> \/ /\ w[1] = "a"
                        /\ Len(w[2]) = Len(v[2])
                        /\ \A i \in 1..Len(v[2]) : Agree(mode, v[2][i], w[2][i])
                     \* a scalar stands for the constant array (0*[a,b] may be written 0)
                     \/ w[1] = "s" /\ \A i \in 1..Len(v[2]) : Agree(mode, v[2][i], w)
    [] v[1] = "e" -> w[1] = "e" /\ Agree(mode, v[2], w[2]) /\ Agree(mode, v[3], w[3])
    [] v[1] = "d" -> /\ w[1] = "d"
                     /\ Len(w[2]) = Len(v[2])
                     /\ \A i \in 1..Len(v[2]) : \E j \in 1..Len(w[2]) : v[2][i][1] = w[2][j][1] /\ Agree(mode, v[2][i][2], w[2][j][2])

\* is any part of the value actually defined (otherwise the comparison was vacuous)
RECURSIVE Informative(_)
Informative(v) ==
  CASE v[1] = "s" -> v[2] >= 0
    [] v[1] = "a" -> \A i \in 1..Len(v[2]) : Informative(v[2][i])
    [] v[1] = "e" -> Informative(v[2]) /\ Informative(v[3])
    [] v[1] = "d" -> \A i \in 1..Len(v[2]) : Informative(v[2][i][2])
    [] OTHER -> FALSE

RECURSIVE Mismatch(_)
Mismatch(v) == v[1] = "x" \/ (v[1] = "d" /\ \E i \in 1..Len(v[2]) : Mismatch(v[2][i][2]))
            \/ (v[1] = "a" /\ \E i \in 1..Len(v[2]) : Mismatch(v[2][i]))
            \/ (v[1] = "e" /\ (Mismatch(v[2]) \/ Mismatch(v[3])))

RECURSIVE Vars(_)
Vars(e) ==
  CASE e.k = "v" -> {e.s}
    [] e.k = "u" -> Vars(e.a)
    [] e.k = "b" -> Vars(e.l) \cup Vars(e.r)
    [] e.k = "arr" -> UNION { Vars(e.x[i]) : i \in 1..Len(e.x) }
    [] e.k = "dict" -> UNION { Vars(e.m[i][2]) : i \in 1..Len(e.m) }
    [] OTHER -> {}

RECURSIVE HasOp(_, _)
HasOp(e, os) ==
  CASE e.k = "u" -> e.o \in os \/ HasOp(e.a, os)
    [] e.k = "b" -> e.o \in os \/ HasOp(e.l, os) \/ HasOp(e.r, os)
    [] e.k = "arr" -> \E i \in 1..Len(e.x) : HasOp(e.x[i], os)
    [] e.k = "dict" -> \E i \in 1..Len(e.m) : HasOp(e.m[i][2], os)
    [] OTHER -> FALSE

RECURSIVE HasKind(_, _)
HasKind(e, ks) ==
  e.k \in ks \/
  CASE e.k = "u" -> HasKind(e.a, ks)
    [] e.k = "b" -> HasKind(e.l, ks) \/ HasKind(e.r, ks)
    [] e.k = "arr" -> \E i \in 1..Len(e.x) : HasKind(e.x[i], ks)
    [] e.k = "dict" -> \E i \in 1..Len(e.m) : HasKind(e.m[i][2], ks)
    [] OTHER -> FALSE

\* evaluation environments: three points, derivative seeded on the variable dv
VarNames == {"x", "y", "z", "w", "a", "b", "m", "s"}
Pt == << [x |-> 17, y |-> 3, z |-> 8, w |-> 29, a |-> 5, b |-> 11, m |-> 23, s |-> 37],
         [x |-> 6, y |-> 19, z |-> 31, w |-> 4, a |-> 13, b |-> 7, m |-> 41, s |-> 9],
         [x |-> 43, y |-> 10, z |-> 5, w |-> 14, a |-> 26, b |-> 22, m |-> 3, s |-> 12] >>
EnvF(i, dv, flag) == [n \in VarNames \cup {"_"} |-> IF n = "_" THEN S(flag, 0) ELSE S(Pt[i][n], IF n = dv THEN 1 ELSE 0)]
Env(i, dv) == EnvF(i, dv, 0)

(* How the library sees the shape of an expression: scalar, array literal (or arithmetic on one), or an  *)
(* array that stays symbolic (function or power of an array), which it takes for a scalar.               *)
RECURSIVE Shape(_)
Shape(e) ==
  CASE e.k = "arr" -> "lit"
    [] e.k = "u" -> IF Shape(e.a) = "scalar" THEN "scalar" ELSE "sym"
    [] e.k = "b" -> LET l == Shape(e.l) r == Shape(e.r) IN
                    IF l = "scalar" /\ r = "scalar" THEN "scalar"
                    ELSE IF e.o \in {"+", "-", "*", "/"} /\ l # "sym" /\ r # "sym" THEN "lit"
                    ELSE IF e.o = "idx" THEN "scalar" ELSE "sym"
    [] OTHER -> "scalar"
RECURSIVE SymArrayMix(_)
SymArrayMix(e) ==
  CASE e.k = "u" -> SymArrayMix(e.a)
    [] e.k = "b" -> \/ SymArrayMix(e.l) \/ SymArrayMix(e.r)
                    \/ e.o \in {"+", "-", "*", "/"} /\ ({Shape(e.l), Shape(e.r)} = {"sym", "lit"} \/ {Shape(e.l), Shape(e.r)} = {"sym"})
    [] e.k = "arr" -> \E i \in 1..Len(e.x) : SymArrayMix(e.x[i])
    [] e.k = "dict" -> \E i \in 1..Len(e.m) : SymArrayMix(e.m[i][2])
    [] OTHER -> FALSE
=============================================================================
