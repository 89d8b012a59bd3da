---------------------------- MODULE TraceSession ----------------------------
(* A recorded history: after every step the log holds the tree, text and hash of every register.  The    *)
(* specification's state is the value of each register; a step changes only the register it names, and   *)
(* that one to a value the operation allows.                                                             *)
EXTENDS Sem, Emit, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, val                      \* val[r]: [t: tree, x: text, h: hash], or empty
Null == [k |-> "null"]
Starts == { i \in 1..Len(Trace) : Trace[i].a = "start" }
Init == l \in Starts /\ val = Trace[l].regs
Next == /\ l < Len(Trace) /\ Trace[l + 1].a # "start"
        /\ l' = l + 1
        /\ val' = Trace[l + 1].regs
Spec == Init /\ [][Next]_<<l, val>>

Points == 1..2
At(e, i) == Eval(e, Env(i, "none"))
Same(e, f) == \A i \in Points : Agree("m", At(e, i), At(f, i))
EqN(l0, r0) == [k |-> "b", o |-> "=", l |-> l0, r |-> r0]
Var(v) == [k |-> "v", s |-> v]
\* the expression a construction step must make
Made(ev, o) ==
  CASE ev.a = "leaf" -> ev.e
    [] ev.a = "un" -> [k |-> "u", o |-> ev.o, a |-> o[ev.i].t]
    [] ev.a = "bin" -> [k |-> "b", o |-> ev.o, l |-> o[ev.i].t, r |-> o[ev.j].t]
    [] ev.a \in {"arr"} -> [k |-> "arr", x |-> [q \in 1..Len(ev.is) |-> o[ev.is[q]].t]]
    [] ev.a = "push" -> [k |-> "arr", x |-> <<o[ev.i].t, Var("x"), o[ev.i].t>>]
    [] ev.a = "dict" -> [k |-> "dict", m |-> [q \in 1..Len(ev.is) |-> <<Var(ev.ks[q]), o[ev.is[q]].t>>]]
SubEnv(pairs, i) ==
  LET rho == Env(i, "none")
      hit(n) == { j \in 1..Len(pairs) : pairs[j][1].s = n }
  IN [n \in VarNames \cup {"_"} |-> IF hit(n) = {} THEN rho[n] ELSE Eval(pairs[CHOOSE j \in hit(n) : TRUE][2], rho)]
\* numbers that are no small dyadic came out of a rounded operation
RECURSIVE Rounded(_)
Rounded(e) == CASE e.k = "c" -> "n" \notin DOMAIN e
                [] e.k \in {"inf", "nan"} -> TRUE
                [] e.k = "u" -> Rounded(e.a)
                [] e.k = "b" -> Rounded(e.l) \/ Rounded(e.r)
                [] e.k = "arr" -> \E i \in 1..Len(e.x) : Rounded(e.x[i])
                [] e.k = "dict" -> \E i \in 1..Len(e.m) : Rounded(e.m[i][2])
                [] OTHER -> FALSE
NoIdx(t) == ~HasOp(t, {"idx", "unc", "units"}) /\ ~SymArrayMix(t)
Exotic(t) == HasKind(t, {"arr", "dict"}) \/ HasOp(t, {"idx", "="})    \* where an operation may be refused
Uses(ev) == (IF "i" \in DOMAIN ev THEN {ev.i} ELSE {}) \cup (IF "j" \in DOMAIN ev THEN {ev.j} ELSE {})
            \cup (IF "is" \in DOMAIN ev THEN { ev.is[q] : q \in 1..Len(ev.is) } ELSE {})
Allowed(ev, o, n) ==
  LET t == n[ev.to].t IN
  CASE ev.a \in {"leaf", "un", "bin", "arr", "push", "dict"} -> Same(Made(ev, o), t)
    [] ev.a = "copy" -> n[ev.to] = o[ev.i]
    [] ev.a = "drop" -> t = Null
    [] \E r \in Uses(ev) : Rounded(o[r].t) -> TRUE
    [] ev.a = "simplify" -> ev.fi = 1 \/ ~NoIdx(o[ev.i].t) \/ Same(o[ev.i].t, t)
    [] ev.a = "deriv" -> ev.fi = 1 \/ ~NoIdx(o[ev.i].t) \/ HasKind(o[ev.i].t, {"dict"})
                         \/ \A i \in Points : Agree("d", Eval(o[ev.i].t, Env(i, ev.v)), At(t, i))
    [] ev.a = "sub" -> ev.fi = 1 \/ ~NoIdx(o[ev.i].t) \/ HasKind(o[ev.i].t, {"dict"}) \/ SymArrayMix(o[ev.j].t)
                       \/ HasKind(o[ev.j].t, {"arr", "dict"}) \/ HasOp(o[ev.j].t, {"="})
                       \/ \A i \in Points : Agree("m", Eval(o[ev.i].t, SubEnv(<< <<Var(ev.v), o[ev.j].t>> >>, i)), At(t, i))
    [] ev.a = "subd" -> ev.fi = 1 \/ ~NoIdx(o[ev.i].t) \/ HasKind(o[ev.i].t, {"dict"}) \/ \E q \in 1..2 : LET s == o[ev.is[q]].t IN HasOp(s, {"=", "idx"}) \/ HasKind(s, {"arr", "dict"})
                        \/ \A i \in Points : Agree("m", Eval(o[ev.i].t, SubEnv([p \in 1..2 |-> <<Var(ev.ks[p]), o[ev.is[p]].t>>], i)), At(t, i))
    [] ev.a = "subdict" -> ev.fi = 1 \/ ~NoIdx(o[ev.i].t) \/ HasKind(o[ev.i].t, {"dict"}) \/ HasOp(o[ev.j].t, {"=", "idx"})
                           \/ HasKind(o[ev.j].t, {"arr"}) \/ o[ev.j].t.k # "dict" \/ \E q \in 1..Len(o[ev.j].t.m) : HasKind(o[ev.j].t.m[q][2], {"dict"})
                           \/ \A i \in Points : Agree("m", Eval(o[ev.i].t, SubEnv(o[ev.j].t.m, i)), At(t, i))
\* an operation may be refused where operands have no meaning together: arrays, dictionaries, relations,
\* or a substitution that is none
MayFail(ev, o) == \/ ev.a = "subdict" /\ o[ev.j].t.k # "dict"
                  \/ ev.a \notin {"leaf", "arr", "push", "dict", "copy", "drop"} /\ \E r \in Uses(ev) : Exotic(o[r].t)
Verdict(ev, o) ==
  LET n == ev.regs
      others == { r \in 1..Len(n) : r # ev.to }
  IN
  CASE "crash" \in DOMAIN ev \/ "hang" \in DOMAIN ev -> "crash"
    [] \E r \in others : n[r] # o[r] -> "an expression changed"
    [] "skip" \in DOMAIN ev -> IF n = o THEN "skipped" ELSE "an expression changed"
    [] "exc" \in DOMAIN ev -> IF ev.exc # "stator" THEN "foreign exception"
                              ELSE IF n # o THEN "failed operation changed its target"
                              ELSE IF MayFail(ev, o) THEN "error" ELSE "unexpected error"
    [] ev.a = "read" -> IF ev.again = 1 THEN "ok" ELSE "reading twice gives different results"
    [] ev.a = "start" -> "ok"
    [] ~Allowed(ev, o, n) -> "wrong value"
    [] OTHER -> "ok"
Judge == [][ LET v == Verdict(Trace[l'], val) IN v = "ok" \/ Emit([l |-> l', v |-> v]) ]_<<l, val>>
=============================================================================
