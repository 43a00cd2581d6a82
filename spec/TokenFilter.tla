---------------------------- MODULE TokenFilter -----------------------------
(* Token filters.  A token is known by a number; an operation is              *)
(*   [kind : "fn" | "word" | "pos", keep : BOOLEAN, ids, words, ps]           *)
(* and its matching predicate looks at the token's table entry [sf, pos].     *)
EXTENDS Integers, Sequences, FeatureFilter

InSeq(x, s) == \E k \in 1..Len(s) : s[k] = x
Hit(op, id, tt, any) ==
  CASE op.kind = "fn"   -> InSeq(id, op.ids)
    [] op.kind = "word" -> InSeq(tt[id].sf, op.words)
    [] op.kind = "pos"  -> Matches(op.ps, tt[id].pos, any)

(* Keep leaves the matching tokens, Drop the others, in order *)
Remaining(op, toks, tt, any) == SelectSeq(toks, LAMBDA t : Hit(op, t, tt, any) = op.keep)
=============================================================================
