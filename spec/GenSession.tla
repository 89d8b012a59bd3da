----------------------------- MODULE GenSession -----------------------------
(* Histories over shared expressions: a few registers hold handles; every step makes an expression out   *)
(* of registers, drops a handle, or only reads.  Registers are reused, so parts outlive their handles    *)
(* and are shared between many expressions.                                                              *)
EXTENDS Integers, Sequences, FiniteSets, Emit
CONSTANTS K, MaxSize, MaxSteps
VARIABLES sizes, hist, done
vars == <<sizes, hist, done>>
Regs == 1..K
Full == { r \in Regs : sizes[r] > 0 }
Init == sizes = [r \in Regs |-> 0] /\ hist = <<>> /\ done = FALSE
Leaves == { [k |-> "c", n |-> 2, d |-> 1], [k |-> "c", n |-> 0, d |-> 1], [k |-> "c", n |-> -3, d |-> 2], [k |-> "v", s |-> "x"], [k |-> "v", s |-> "y"] }
Step(c, r, s) == s <= MaxSize /\ sizes' = [sizes EXCEPT ![r] = s] /\ hist' = Append(hist, c)
\* the registers taking part in a step are drawn at random, the kind of step is left to the search
Draw(s) == { RandomElement(s) }
Make ==
  \E r \in Draw({ q \in Regs : Len(hist) >= 0 }) :
    \/ \E e \in Draw({ f \in Leaves : Len(hist) >= 0 }) : Step([a |-> "leaf", to |-> r, e |-> e], r, 1)
    \/ /\ Full # {}
       /\ \E i \in Draw(Full), j \in Draw(Full), d \in Draw(Full), v \in Draw({ q \in {"x", "y"} : Len(hist) >= 0 }) :
          \/ \E o \in {"sin", "exp", "abs", "neg"} : Step([a |-> "un", to |-> r, o |-> o, i |-> i], r, sizes[i] + 1)
          \/ \E o \in {"+", "-", "*", "/", "^", "="} : Step([a |-> "bin", to |-> r, o |-> o, i |-> i, j |-> j], r, sizes[i] + sizes[j] + 1)
          \/ Step([a |-> "arr", to |-> r, is |-> <<i, j>>], r, sizes[i] + sizes[j] + 1)
          \/ Step([a |-> "push", to |-> r, i |-> i], r, 2 * sizes[i] + 2)
          \/ Step([a |-> "dict", to |-> r, ks |-> <<"x", "y">>, is |-> <<i, j>>], r, sizes[i] + sizes[j] + 1)
          \/ \E q \in {1, 2} : Step([a |-> "simplify", to |-> r, i |-> i], r, sizes[i])
          \/ Step([a |-> "deriv", to |-> r, i |-> i, v |-> v], r, 4 * sizes[i])
          \/ Step([a |-> "sub", to |-> r, i |-> i, j |-> j, v |-> v], r, sizes[i] * sizes[j])
          \/ Step([a |-> "subdict", to |-> r, i |-> i, j |-> j], r, sizes[i] * sizes[j])
          \/ \E ks \in { <<"x", "y">>, <<"y", "z">> } : Step([a |-> "subd", to |-> r, i |-> i, ks |-> ks, is |-> <<j, d>>], r, sizes[i] * (sizes[j] + sizes[d]))
          \/ Step([a |-> "copy", to |-> r, i |-> i], r, sizes[i])
          \/ Step([a |-> "drop", to |-> d], d, 0)
          \/ Step([a |-> "read", to |-> 0, i |-> i, j |-> j], i, sizes[i])
Next == \/ /\ Len(hist) < MaxSteps
           /\ Make
           /\ done' = FALSE
        \/ /\ Len(hist) = MaxSteps
           /\ ~done
           /\ done' = TRUE
           /\ UNCHANGED <<sizes, hist>>
Report == done => Emit([op |-> "session", k |-> K, steps |-> hist])
=============================================================================
