------------------------------- MODULE GenPy --------------------------------
(* Calls of the Python package: expressions built with its operators in four styles (numbers as Python     *)
(* integers or floats on either side, as expressions, or with the right operand wrapped), then simplified, *)
(* substituted into or differentiated; and everything that is not an expression in every argument place.   *)
EXTENDS GenExpr
Style(c, s) ==
  LET how == IF c.op = "simplify" THEN (sz + s) % 4 ELSE 0
      node == c.e.k = "u" \/ (c.e.k = "b" /\ c.e.o # "=")
  IN c @@ [st |-> s, how |-> how, conv |-> CASE c.op = "deriv" -> FALSE [] c.op = "sub" -> TRUE [] OTHER -> how = 3 \/ (how = 0 /\ node)]
ReportPy == (Len(stk) = 1 /\ (Exact => sz = MaxN)) => \A c \in Calls(stk[1]), s \in 0..3 : Emit(Style(c, s))
Ways == { "add", "radd", "sub", "rsub", "mul", "rdiv", "deriv", "derivof", "derivx", "sub1", "sub2", "make", "simp", "eqobj" }
Things == { "none", "str", "obj", "set", "cplx", "bytes", "list", "dict" }
ReportMisuse == sz = 0 => \A w \in Ways, z \in Things : Emit([op |-> "misuse", w |-> w, z |-> z])
=============================================================================
