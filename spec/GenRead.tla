------------------------------ MODULE GenRead -------------------------------
(* Canonical texts of the expressions of GenExpr, and the consistency of the grammar itself: the text    *)
(* of a tree is read as that tree, with and without spaces.                                              *)
EXTENDS GenExpr, Syntax
IsOne == Len(stk) = 1 /\ (Exact => sz = MaxN)
GrammarFaithful == IsOne => Faithful(stk[1])
ReportRead == IsOne => Emit([op |-> "parsecmp", e |-> stk[1], t |-> Render(stk[1], IF sz % 2 = 0 THEN <<>> ELSE <<" ">>)])
=============================================================================
