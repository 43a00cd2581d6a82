------------------------------ MODULE Lattice -------------------------------
(* The graph of an analysis: the candidate words of the Analyzer as nodes,    *)
(* joined where one ends and the next begins, the best path highlighted.      *)
(* A node is [s, e, cl, id, sf, pos, w, l, r, best]: the characters it covers *)
(* (BOS ends before the first, EOS starts after the last), its label and its  *)
(* contexts.                                                                  *)
(* A dictionary also holds kent, uent, usent: the entries (see TokenView) of  *)
(* kmorph, umorph and user.                                                   *)
EXTENDS Analyzer
TV == INSTANCE TokenView

PosLabel(ps) == LET q == SelectSeq(ps, LAMBDA x : x # "*") IN IF q = <<>> THEN "---" ELSE TV!Join(q, "/")

IndexOf(ms, id) == CHOOSE k \in 1..Len(ms) : ms[k].id = id
EntryOf(D, c) == CASE c.cl = KNOWN   -> D.kent[IndexOf(D.kmorph, c.id)]
                   [] c.cl = UNKNOWN -> D.uent[IndexOf(D.umorph, c.id)]
                   [] c.cl = USER    -> D.usent[IndexOf(D.user, c.id)]

BosNode == [s |-> 0, e |-> 1, cl |-> DUMMY, id |-> BosEos, sf |-> <<66, 79, 83>>, pos |-> "---", w |-> 0, l |-> 0, r |-> 0, best |-> TRUE]
EosNode(n) == [s |-> n + 1, e |-> n + 2, cl |-> DUMMY, id |-> BosEos, sf |-> <<69, 79, 83>>, pos |-> "---", w |-> 0, l |-> 0, r |-> 0, best |-> TRUE]

NodeOf(D, b, T, i, c, best) ==
  [s |-> i, e |-> c.e, cl |-> c.cl, id |-> c.id, sf |-> SubSeq(b, T.off[i] + 1, T.off[c.e]),
   pos |-> PosLabel(TV!Pos(c.cl, EntryOf(D, c))), w |-> c.w, l |-> c.l, r |-> c.r, best |-> best]

(* a candidate is highlighted if it is a token of the result *)
OnBest(tk, i, c) == \E k \in 1..Len(tk) : tk[k].st = i - 1 /\ tk[k].en = c.e - 1 /\ tk[k].cl = c.cl /\ tk[k].id = c.id

(* the nodes drawn at character i: unknown words only on the best path *)
Drawn(D, b, T, i, C, tk) ==
  {NodeOf(D, b, T, i, c, OnBest(tk, i, c)) : c \in {x \in C : x.cl # UNKNOWN \/ OnBest(tk, i, x)}}

Joined(a, b) == a.e = b.s
LinkCost(D, a, b) == IF a.cl = USER THEN 0 ELSE Link(D, a.r, FALSE, b)
Bold(a, b) == a.best /\ b.best
=============================================================================
