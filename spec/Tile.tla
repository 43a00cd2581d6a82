-------------------------------- MODULE Tile --------------------------------
(* What it means for a token sequence to tile a text: a cursor moves over the *)
(* text, one token at a time.  The state of the cursor is                     *)
(*   [k, b, r] : next token, bytes consumed, characters consumed.             *)
(* A token is [ix, id, cl, ps, st, en, sf].                                   *)
EXTENDS Integers, Sequences, Utf8

LOCAL Dummy == 0
BosEosId == -1
Bos == <<66, 79, 83>>
Eos == <<69, 79, 83>>

Cursor0 == [k |-> 1, b |-> 0, r |-> 0]

(* an edge token (BOS or EOS) stands at the cursor and consumes nothing *)
EdgeOK(t, cur, name) ==
  /\ t.ix = cur.k - 1 /\ t.id = BosEosId /\ t.cl = Dummy
  /\ t.ps = cur.b /\ t.st = cur.r /\ t.en = cur.r /\ t.sf = name

(* number of characters a word covers at the cursor, -1 if it does not fit *)
WordLen(t, cur, text) ==
  IF OccursAt(text, cur.b + 1, t.sf)
  THEN CountRunes(text, cur.b + 1, cur.b + 1 + Len(t.sf)) ELSE -1

WordOK(t, cur, text) ==
  LET n == WordLen(t, cur, text)
  IN /\ t.ix = cur.k - 1
     /\ t.id # BosEosId
     /\ t.cl \in 0..3
     /\ n > 0
     /\ t.ps = cur.b
     /\ t.st = cur.r
     /\ t.en = cur.r + n

AfterEdge(cur) == [cur EXCEPT !.k = @ + 1]
AfterWord(t, cur, text) ==
  [k |-> cur.k + 1, b |-> cur.b + Len(t.sf), r |-> cur.r + WordLen(t, cur, text)]
=============================================================================
