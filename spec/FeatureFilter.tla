--------------------------- MODULE FeatureFilter ----------------------------
(* Filters of feature vectors by patterns.  A pattern matches a vector if it  *)
(* is a prefix of it, Any standing for every feature; a filter matches if one *)
(* of its non-empty patterns does.                                            *)
EXTENDS Integers, Sequences

Agrees(p, v, any) == /\ Len(p) > 0 /\ Len(p) <= Len(v)
                     /\ \A k \in 1..Len(p) : p[k] = any \/ p[k] = v[k]
Matches(ps, v, any) == \E k \in 1..Len(ps) : Agrees(ps[k], v, any)

(* The prefix tree a filter is kept in, as the set of its root-to-leaf paths: *)
(* a pattern with a stored prefix is redundant, and makes redundant the       *)
(* stored patterns it is a prefix of.                                         *)
PrefixOf(p, q) == Len(p) <= Len(q) /\ SubSeq(q, 1, Len(p)) = p
AddPattern(tree, p) ==
  IF p = <<>> \/ \E q \in tree : PrefixOf(q, p) THEN tree
  ELSE {q \in tree : ~PrefixOf(p, q)} \cup {p}
TreeMatches(tree, v, any) == \E p \in tree : Agrees(p, v, any)
=============================================================================
