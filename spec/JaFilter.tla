------------------------------ MODULE JaFilter ------------------------------
(* The Japanese filter.  Settings F: [tags, base : patterns, words : Seq].    *)
(* A token is [sf, pos, hasb, base].                                          *)
EXTENDS Integers, Sequences, FeatureFilter
InList(x, s) == \E k \in 1..Len(s) : s[k] = x
Stopped(F, t, any) == Matches(F.tags, t.pos, any) \/ InList(t.sf, F.words)
YieldOne(F, t, any) ==
  IF Stopped(F, t, any) THEN <<>>
  ELSE IF Matches(F.base, t.pos, any) THEN (IF t.hasb THEN <<t.base>> ELSE <<>>)
  ELSE <<t.sf>>
=============================================================================
