------------------------------ MODULE Analyzer ------------------------------
(* The morphological analyzer: from a dictionary and a text to the lattice of *)
(* candidate words and the minimum-cost path through it.                      *)
(*                                                                            *)
(* The analysis is a left-to-right machine over the characters of the text:   *)
(*   Scan     decodes one character and classifies it,                        *)
(*   Extend   offers the candidate words that start at the next character and *)
(*            extends the best partial paths by them.                         *)
(* Its state is kept in records so that the same operators serve the          *)
(* exhaustive model (AnalyzerMC) and the validation of recorded executions    *)
(* (AnalyzerTrace).                                                           *)
(*                                                                            *)
(* A dictionary D is a record                                                 *)
(*   known  : Seq([s : bytes, m : Seq(index into kmorph)])                    *)
(*   kmorph : Seq([id, l, r, w])        word id, left/right context, cost     *)
(*   hasu   : BOOLEAN, user : Seq([s : bytes, id])                            *)
(*   cats   : Seq(<<rune, category>>), defcat : category of all other runes   *)
(*   invoke, group : Seq(BOOLEAN)       by category + 1                       *)
(*   unk    : Seq(Seq(index into umorph)) by category + 1                     *)
(*   umorph : Seq([id, l, r, w])                                              *)
(*   conn   : Seq(Seq(Int))             conn[r + 1][l + 1]                    *)
EXTENDS Integers, Sequences, FiniteSets, Utf8

DUMMY == 0   KNOWN == 1   UNKNOWN == 2   USER == 3
BosEos == -1
NormalMode == 1  SearchMode == 2  ExtendedMode == 3

MaxUnknown == 1024
KanjiLen == 2   KanjiPenalty == 3000
OtherLen == 7   OtherPenalty == 1700

(* a set's minimum *)
MinOf(S) == CHOOSE x \in S : \A y \in S : x <= y

CategoryOf(D, r) ==
  LET I == {k \in 1..Len(D.cats) : D.cats[k][1] = r}
  IN IF I = {} THEN D.defcat ELSE D.cats[CHOOSE k \in I : TRUE][2]

-----------------------------------------------------------------------------
(* Scan: T is the scanned part of the text                                    *)
(*   rn   characters, off byte offsets of the characters and of the end,      *)
(*   cat  categories, nk  number of non-kanji up to each character,           *)
(*   brk  last characters of the finished runs of equal category              *)
EmptyText == [rn |-> <<>>, off |-> <<0>>, cat |-> <<>>, nk |-> <<0>>, brk |-> <<>>]

ScanDone(b, T) == T.off[Len(T.off)] = Len(b)

ScanOne(D, b, T) ==
  LET o == T.off[Len(T.off)]
      d == DecodeAt(b, o + 1)
      c == CategoryOf(D, d[1])
      n == Len(T.rn)
  IN [rn  |-> Append(T.rn, d[1]),
      off |-> Append(T.off, o + d[2]),
      cat |-> Append(T.cat, c),
      nk  |-> Append(T.nk, T.nk[n + 1] + (IF Ideographic(d[1]) THEN 0 ELSE 1)),
      brk |-> IF n > 0 /\ T.cat[n] # c THEN Append(T.brk, n) ELSE T.brk]

ScanEnd(T) == [T EXCEPT !.brk = IF Len(T.rn) > 0 THEN Append(@, Len(T.rn)) ELSE @]

(* index into brk of the run that contains character i, from a guess q *)
RunIndex(T, q, i) == IF T.brk[q] >= i THEN q ELSE q + 1

-----------------------------------------------------------------------------
(* Candidates.  A candidate is [cl, id, l, r, w, e]: class, id, contexts,     *)
(* cost and the index of the character after it.                              *)
EndIndex(T, i, len) ==
  LET J == {j \in (i + 1)..Len(T.off) : T.off[j] = T.off[i] + len}
  IN IF J = {} THEN -1 ELSE CHOOSE j \in J : TRUE
(* as EndIndex, looking only as far as len characters *)
EndIndexNear(T, i, len) ==
  LET hi == IF i + len < Len(T.off) THEN i + len ELSE Len(T.off)
      J == {j \in (i + 1)..hi : T.off[j] = T.off[i] + len}
  IN IF J = {} THEN -1 ELSE CHOOSE j \in J : TRUE

UserMatches(D, b, T, i) ==
  IF ~D.hasu THEN {} ELSE {k \in 1..Len(D.user) : OccursAt(b, T.off[i] + 1, D.user[k].s)}
KnownMatches(D, b, T, i) ==
  {k \in 1..Len(D.known) : OccursAt(b, T.off[i] + 1, D.known[k].s)}

UserCands(D, b, T, i) ==
  {[cl |-> USER, id |-> D.user[k].id, l |-> 0, r |-> 0, w |-> 0,
    e |-> EndIndexNear(T, i, Len(D.user[k].s))] : k \in UserMatches(D, b, T, i)}

KnownCands(D, b, T, i, KM) ==
  UNION {{[cl |-> KNOWN, id |-> D.kmorph[m].id, l |-> D.kmorph[m].l, r |-> D.kmorph[m].r,
           w |-> D.kmorph[m].w, e |-> EndIndexNear(T, i, Len(D.known[k].s))]
          : m \in {D.known[k].m[x] : x \in 1..Len(D.known[k].m)}} : k \in KM}

(* last character of the longest unknown word at i; runEnd ends i's run *)
UnknownLast(D, T, i, runEnd) ==
  IF D.group[T.cat[i] + 1]
  THEN (IF runEnd < i + MaxUnknown - 1 THEN runEnd ELSE i + MaxUnknown - 1)
  ELSE i

UnknownCands(D, T, i, runEnd) ==
  LET last == UnknownLast(D, T, i, runEnd)
      ends == {last + 1} \cup (IF last > i /\ T.rn[last] # RuneError THEN {last} ELSE {})
      us   == D.unk[T.cat[i] + 1]
  IN {[cl |-> UNKNOWN, id |-> D.umorph[us[x]].id, l |-> D.umorph[us[x]].l,
       r |-> D.umorph[us[x]].r, w |-> D.umorph[us[x]].w, e |-> en]
      : x \in 1..Len(us), en \in ends}

(* user entries shut out everything else; unknown words are offered where no  *)
(* dictionary word starts, and always for the invoking categories             *)
Candidates(D, b, T, i, runEnd) ==
  LET U == UserCands(D, b, T, i)
  IN IF U # {} THEN U
     ELSE LET KM == KnownMatches(D, b, T, i)
          IN KnownCands(D, b, T, i, KM)
             \cup (IF KM = {} \/ D.invoke[T.cat[i] + 1] THEN UnknownCands(D, T, i, runEnd) ELSE {})

-----------------------------------------------------------------------------
(* Costs *)
KanjiOnly(T, i, e) == e > i /\ T.nk[e] = T.nk[i]
Penalty(T, i, e) ==
  LET len == e - i
  IN IF len > KanjiLen /\ KanjiOnly(T, i, e) THEN (len - KanjiLen) * KanjiPenalty
     ELSE IF len > OtherLen THEN (len - OtherLen) * OtherPenalty
     ELSE 0
(* cost of connecting a word with right context r (u: a user word) to c *)
Link(D, r, u, c) == IF u \/ c.cl = USER THEN 0 ELSE D.conn[r + 1][c.l + 1]

EOSCand(e) == [cl |-> DUMMY, id |-> BosEos, l |-> 0, r |-> 0, w |-> 0, e |-> e]

(* Paths: P[e] holds the best partial paths whose words end before character  *)
(* e, a set of [r, u, c]: right context of the last word, whether it is a     *)
(* user word, and the cost (including the last word's penalty outside Normal  *)
(* mode).  Per context only the cheapest is kept.                             *)
BosPaths(n) == [e \in 1..(n + 1) |-> IF e = 1 THEN {[r |-> 0, u |-> FALSE, c |-> 0]} ELSE {}]
BestLink(D, H, c) == MinOf({p.c + Link(D, p.r, p.u, c) : p \in H})

Prune(S) == {p \in S : \A q \in S : (q.r = p.r /\ q.u = p.u) => q.c >= p.c}

RECURSIVE AddEnds(_, _, _)
AddEnds(P, E, N) ==
  IF E = {} THEN P
  ELSE LET e == CHOOSE x \in E : TRUE
       IN AddEnds([P EXCEPT ![e] = Prune(@ \cup {[r |-> x.r, u |-> x.u, c |-> x.c] : x \in {y \in N : y.e = e}})],
                  E \ {e}, N)

(* extend the partial paths that end before character i by its candidates C; *)
(* candidates at an unreachable character extend nothing                      *)
ExtendPaths(D, T, mode, P, i, C) ==
  LET H == P[i]
  IN IF H = {} THEN P
     ELSE LET N == {[e |-> c.e, r |-> c.r, u |-> (c.cl = USER),
                     c |-> BestLink(D, H, c) + c.w
                           + (IF mode = NormalMode THEN 0 ELSE Penalty(T, i, c.e))] : c \in C}
          IN AddEnds([P EXCEPT ![i] = {}], {c.e : c \in C}, N)

MinCost(D, P, n) == BestLink(D, P[n + 1], EOSCand(n + 1))
=============================================================================
