--------------------------- MODULE TokenFilterMC ----------------------------
(* Sequences of filters on all short token sequences over three kinds of      *)
(* tokens; kind k has surface and part of speech k.                           *)
EXTENDS TokenFilter, TLC, FiniteSets
CONSTANTS MaxLen, MaxOps
Kinds == {1, 2, 3}
RECURSIVE SeqsUpTo(_)
SeqsUpTo(n) == IF n = 0 THEN {<<>>} ELSE LET X == SeqsUpTo(n - 1) IN X \cup {<<k>> \o s : k \in Kinds, s \in X}
RECURSIVE ToSeq(_)
ToSeq(X) == IF X = {} THEN <<>> ELSE LET x == CHOOSE y \in X : \A z \in X : y <= z IN <<x>> \o ToSeq(X \ {x})

VARIABLES start, kinds, ops, res    \* res: positions (in start) of the remaining tokens after each operation
vars == <<start, kinds, ops, res>>
Table == [p \in 1..Len(start) |-> [sf |-> start[p], pos |-> <<start[p]>>]]
Op(M, keep) == [kind |-> "word", keep |-> keep, words |-> ToSeq(M), ids |-> <<>>, ps |-> <<>>]
Now == IF res = <<>> THEN [p \in 1..Len(start) |-> p] ELSE res[Len(res)]
Init == start \in SeqsUpTo(MaxLen) /\ kinds = {} /\ ops = <<>> /\ res = <<>>
Apply == /\ Len(ops) < MaxOps
         /\ \E M \in SUBSET Kinds, keep \in BOOLEAN :
              /\ ops' = Append(ops, <<keep, ToSeq(M)>>)
              /\ res' = Append(res, Remaining(Op(M, keep), Now, Table, 0))
         /\ UNCHANGED <<start, kinds>>
Spec == Init /\ [][Apply]_vars

(* Keep and Drop split every sequence in two, in order, and are idempotent *)
Ascending(s) == \A k \in 1..(Len(s) - 1) : s[k] < s[k + 1]
Partition == \A M \in SUBSET Kinds :
  LET a == Remaining(Op(M, TRUE), Now, Table, 0)  b == Remaining(Op(M, FALSE), Now, Table, 0)
      SetOf(s) == {s[k] : k \in 1..Len(s)}
  IN /\ SetOf(a) \cap SetOf(b) = {} /\ SetOf(a) \cup SetOf(b) = SetOf(Now)
     /\ Ascending(a) /\ Ascending(b)
     /\ Remaining(Op(M, TRUE), a, Table, 0) = a /\ Remaining(Op(M, FALSE), b, Table, 0) = b
     /\ Remaining(Op(M, FALSE), a, Table, 0) = <<>>
Generate == Len(ops) = MaxOps => PrintT("G|" \o ToString(<<start, ops, res>>))
=============================================================================
