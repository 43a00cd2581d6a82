-------------------------- MODULE FeatureFilterMC ---------------------------
(* All filters built from few short patterns: the tree decides as the list of *)
(* patterns does, in whatever order it was built.  Every filter is printed    *)
(* with the vectors it matches, for replay on the code.                       *)
EXTENDS FeatureFilter, TLC, FiniteSets
CONSTANTS MaxPat, MaxPatLen, MaxVecLen

(* 0 is Any; a vector may hold the string that stands for Any as well *)
RECURSIVE Words(_, _)
Words(A, n) == IF n = 0 THEN {<<>>} ELSE LET W == Words(A, n - 1) IN W \cup {<<a>> \o w : a \in A, w \in W}
Patterns == Words({0, 1, 2}, MaxPatLen)
Vectors == Words({0, 1, 2, 3}, MaxVecLen)

VARIABLES ps, tree
Init == ps = <<>> /\ tree = {}
Add == /\ Len(ps) < MaxPat
       /\ \E p \in Patterns : ps' = Append(ps, p) /\ tree' = AddPattern(tree, p)
Next == Add
Spec == Init /\ [][Next]_<<ps, tree>>

TreeIsList == \A v \in Vectors : TreeMatches(tree, v, 0) = Matches(ps, v, 0)
NoRedundancy == \A p, q \in tree : PrefixOf(p, q) => p = q
Generate == PrintT("G|" \o ToString(<<ps, {v \in Vectors : Matches(ps, v, 0)}>>))
=============================================================================
