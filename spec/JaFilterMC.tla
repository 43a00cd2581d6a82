----------------------------- MODULE JaFilterMC -----------------------------
(* The Japanese filter on all short sequences over three kinds of tokens with *)
(* all settings over them: kind k has surface and part of speech k, and a     *)
(* base form unless k = 3; that of kind 2 is the surface of kind 3.  Kind 4   *)
(* has the surface of kind 1, the part of speech of kind 2 and its own base   *)
(* form.                                                                      *)
EXTENDS JaFilter, TLC
CONSTANTS MaxLen
Kinds == {1, 2, 3}
RECURSIVE ToSeq(_)
ToSeq(X) == IF X = {} THEN <<>> ELSE LET x == CHOOSE y \in X : \A z \in X : y <= z IN <<x>> \o ToSeq(X \ {x})
Pats(s) == [k \in 1..Len(s) |-> <<s[k]>>]
Sequences == Kinds \cup {4}
Tok(k) == IF k = 4 THEN [sf |-> 1, pos |-> <<2>>, hasb |-> TRUE, base |-> 14] ELSE
          [sf |-> k, pos |-> <<k>>, hasb |-> k # 3, base |-> IF k = 2 THEN 3 ELSE k + 10]

VARIABLES F, seq, ys, ds
vars == <<F, seq, ys, ds>>
Init == /\ \E A, B, C \in SUBSET Kinds : F = [tags |-> Pats(ToSeq(A)), words |-> ToSeq(B), base |-> Pats(ToSeq(C))]
        /\ seq = <<>> /\ ys = <<>> /\ ds = <<>>
Next == /\ Len(seq) < MaxLen
        /\ \E k \in Sequences : /\ seq' = Append(seq, k)
                                /\ ys' = ys \o YieldOne(F, Tok(k), 0)
                                /\ ds' = IF Stopped(F, Tok(k), 0) THEN ds ELSE Append(ds, Len(seq) + 1)
        /\ UNCHANGED F
Spec == Init /\ [][Next]_vars
(* what is yielded stems, in order, from what Drop leaves *)
Consistent == ys = LET Y == [k \in 1..Len(ds) |-> YieldOne(F, Tok(seq[ds[k]]), 0)]
                       RECURSIVE Cat(_)
                       Cat(n) == IF n = 0 THEN <<>> ELSE Cat(n - 1) \o Y[n]
                   IN Cat(Len(ds))
NoStopWord == \A k \in 1..Len(ys) : ys[k] < 3 => ~InList(ys[k], F.words)
Generate == PrintT("G|" \o ToString(<<F.tags, F.words, F.base, seq, ys, ds>>))
=============================================================================
