----------------------------- MODULE AnalyzerMC -----------------------------
(* The analyzer machine on all small dictionaries and texts: what the users   *)
(* rely on follows from the rules in Analyzer.                                *)
(*                                                                            *)
(* The dynamic programming of Analyzer (the best partial paths per context)   *)
(* is compared with an exhaustive enumeration of all segmentations, and every *)
(* segmentation is shown to tile the text.                                    *)
EXTENDS Analyzer, Tile, TLC

CONSTANTS MaxLen,      \* length of texts in characters
          Weights      \* numbers of the cost assignments

(* characters: "a" (97), "b" (98), an invalid byte, and a kanji (E4 B8 80) *)
Chars == {<<97>>, <<98>>, <<255>>, <<228, 184, 128>>}
RECURSIVE Texts(_)
Texts(n) == IF n = 0 THEN {<<>>} ELSE LET S == Texts(n - 1) IN S \cup {c \o t : c \in Chars, t \in S}

KnownPool == {<<97>>, <<97, 98>>, <<98, 97, 98>>, <<228, 184, 128, 228, 184, 128, 228, 184, 128>>}
UserPool == {<<98>>, <<97, 98>>}
Kanji == <<228, 184, 128>>

RECURSIVE ToSeq(_)
ToSeq(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE y \in S : TRUE IN <<x>> \o ToSeq(S \ {x})

(* cost assignment number k: word weights and connections *)
Weight(k, id) == CASE k = 0 -> 0 [] k = 1 -> id [] k = 2 -> 7 - 3 * id [] k = 3 -> ((id * 5) % 7) - 2 [] OTHER -> 10 - id
Conn(k) == CASE k = 0 -> <<<<0, 0>>, <<0, 0>>>>
             [] k = 1 -> <<<<0, 4>>, <<-3, 1>>>>
             [] k = 2 -> <<<<5, -5>>, <<5, -5>>>>
             [] OTHER -> <<<<-2, 2>>, <<3, -1>>>>

Dictionary(K, hasu, U, inv, grp, k) ==
  LET ks == ToSeq(K)  us == ToSeq(U)
  IN [known  |-> [j \in 1..Len(ks) |-> [s |-> ks[j], m |-> IF j = 1 THEN <<1, Len(ks) + 1>> ELSE <<j>>]],
      kmorph |-> [j \in 1..(Len(ks) + 1) |-> [id |-> j, l |-> j % 2, r |-> (j + k) % 2, w |-> Weight(k, j)]],
      hasu   |-> hasu,
      user   |-> [j \in 1..Len(us) |-> [s |-> us[j], id |-> j]],
      cats   |-> <<<<97, 0>>, <<98, 1>>, <<RuneError, 0>>, <<19968, 1>>>>,
      defcat |-> 0,
      invoke |-> inv, group |-> grp,
      unk    |-> <<<<1>>, <<2, 3>>>>,
      umorph |-> <<[id |-> 0, l |-> 0, r |-> 1, w |-> Weight(k, 3)],
                   [id |-> 1, l |-> 1, r |-> 0, w |-> Weight(k, 2)],
                   [id |-> 2, l |-> 0, r |-> 0, w |-> Weight(k, 4)]>>,
      conn   |-> Conn(k)]

VARIABLES D, b, T, i, q, P1, P2, ph
vars == <<D, b, T, i, q, P1, P2, ph>>

Init ==
  /\ \E K \in SUBSET KnownPool, hasu \in BOOLEAN, inv \in [1..2 -> BOOLEAN], grp \in [1..2 -> BOOLEAN], k \in Weights :
       \E U \in (IF hasu THEN SUBSET UserPool ELSE {{}}) :
         /\ K # {}
         /\ D = Dictionary(K, hasu, U, inv, grp, k)
  /\ b \in Texts(MaxLen)
  /\ T = EmptyText /\ i = 1 /\ q = 1 /\ P1 = <<>> /\ P2 = <<>> /\ ph = "scan"

Scan == /\ ph = "scan" /\ ~ScanDone(b, T)
        /\ T' = ScanOne(D, b, T)
        /\ UNCHANGED <<D, b, i, q, P1, P2, ph>>
Scanned == /\ ph = "scan" /\ ScanDone(b, T)
           /\ T' = ScanEnd(T) /\ ph' = "walk"
           /\ P1' = BosPaths(Len(T.rn)) /\ P2' = BosPaths(Len(T.rn))
           /\ UNCHANGED <<D, b, i, q>>
Extend == /\ ph = "walk" /\ i <= Len(T.rn)
          /\ q' = RunIndex(T, q, i)
          /\ LET C == Candidates(D, b, T, i, T.brk[q'])
             IN /\ P1' = ExtendPaths(D, T, NormalMode, P1, i, C)
                /\ P2' = ExtendPaths(D, T, SearchMode, P2, i, C)
          /\ i' = i + 1
          /\ UNCHANGED <<D, b, T, ph>>
Finish == /\ ph = "walk" /\ i > Len(T.rn) /\ ph' = "done" /\ UNCHANGED <<D, b, T, i, q, P1, P2>>
Next == Scan \/ Scanned \/ Extend \/ Finish
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
N == Len(T.rn)
(* the run of characters of one category, found by looking at the text alone *)
RunEndOf(j) == CHOOSE e \in j..N : /\ \A x \in j..e : T.cat[x] = T.cat[j]
                                   /\ e < N => T.cat[e + 1] # T.cat[j]
CandsAt(j) == Candidates(D, b, T, j, RunEndOf(j))

(* all segmentations from character j on *)
RECURSIVE Paths(_)
Paths(j) == IF j = N + 1 THEN {<<>>}
            ELSE UNION {{<<[c EXCEPT !.cl = c.cl] @@ [s |-> j]>> \o p : p \in Paths(c.e)} : c \in CandsAt(j)}
RECURSIVE PathCost(_, _, _, _, _)
PathCost(p, k, r, u, mode) ==
  IF k > Len(p) THEN Link(D, r, u, EOSCand(N + 1))
  ELSE Link(D, r, u, p[k]) + p[k].w + (IF mode = NormalMode THEN 0 ELSE Penalty(T, p[k].s, p[k].e))
       + PathCost(p, k + 1, p[k].r, p[k].cl = USER, mode)
Best(mode) == MinOf({PathCost(p, 1, 0, FALSE, mode) : p \in Paths(1)})

(* the machine's partial paths never end in nowhere *)
TypeOK == ph \in {"scan", "walk", "done"}
ScanOK == ph # "scan" => /\ T.off[N + 1] = Len(b) /\ N = CountRunes(b, 1, Len(b) + 1)
                         /\ \A j \in 1..N : T.brk[RunIndex(T, MinOf({x \in 1..Len(T.brk) : T.brk[x] >= j}), j)] = RunEndOf(j)
(* a segmentation always exists, whatever user entries shut out *)
Exists == ph = "done" => Paths(1) # {} /\ P1[N + 1] # {} /\ P2[N + 1] # {}
(* dynamic programming finds the optimum of the exhaustive enumeration *)
Optimal == ph = "done" => /\ MinCost(D, P1, N) = Best(NormalMode)
                          /\ MinCost(D, P2, N) = Best(SearchMode)
(* every segmentation tiles the text *)
TokenOf(c, k) == [ix |-> k, id |-> c.id, cl |-> c.cl, ps |-> T.off[c.s], st |-> c.s - 1, en |-> c.e - 1,
                  sf |-> SubSeq(b, T.off[c.s] + 1, T.off[c.e])]
RECURSIVE Tiled(_, _)
Tiled(p, cur) == IF cur.k > Len(p) + 1 THEN cur.b = Len(b) /\ cur.r = N
                 ELSE LET t == TokenOf(p[cur.k - 1], cur.k - 1)
                      IN WordOK(t, cur, b) /\ Tiled(p, AfterWord(t, cur, b))
Tiling == ph = "done" => \A p \in Paths(1) : Tiled(p, AfterEdge(Cursor0))
(* user entries shut out everything that starts where they match *)
Precedence == ph = "done" =>
  \A j \in 1..N : UserMatches(D, b, T, j) # {} => \A c \in CandsAt(j) : c.cl = USER
(* unknown words consist of one category and are maximal, or one short of it *)
UnknownShape == ph = "done" =>
  \A j \in 1..N : \A c \in CandsAt(j) :
     c.cl = UNKNOWN => /\ \A x \in j..(c.e - 1) : T.cat[x] = T.cat[j]
                       /\ c.e >= RunEndOf(j) \/ ~D.group[T.cat[j] + 1]
(* Search never finds a cheaper path in its own cost than Normal's path has   *)
SearchDearer == ph = "done" => MinCost(D, P2, N) >= MinCost(D, P1, N)
-----------------------------------------------------------------------------
(* Every dictionary and text with what may come out: the candidates and the   *)
(* cheapest segmentations, as words <<first character, class, id, end>>.      *)
Word(c) == <<c.s, c.cl, c.id, c.e>>
Bit(x) == IF x THEN 1 ELSE 0
Costs(m) == <<m.id, m.l, m.r, m.w>>
Generate == ph = "done" =>
  LET ps == Paths(1)
      cost(mode) == [p \in ps |-> PathCost(p, 1, 0, FALSE, mode)]
      words(p) == [k \in 1..Len(p) |-> Word(p[k])]
      best(mode) == LET f == cost(mode)  m == MinOf({f[p] : p \in ps}) IN {words(p) : p \in {x \in ps : f[x] = m}}
  IN PrintT("G|" \o ToString(<<
       [k \in 1..Len(D.known) |-> <<D.known[k].s, D.known[k].m>>],
       [k \in 1..Len(D.kmorph) |-> Costs(D.kmorph[k])],
       Bit(D.hasu), [k \in 1..Len(D.user) |-> D.user[k].s],
       <<Bit(D.invoke[1]), Bit(D.invoke[2])>>, <<Bit(D.group[1]), Bit(D.group[2])>>,
       [k \in 1..Len(D.umorph) |-> Costs(D.umorph[k])], D.conn, b,
       UNION {{<<j, c.cl, c.id, c.e>> : c \in CandsAt(j)} : j \in 1..N},
       best(NormalMode), best(SearchMode)>>))
=============================================================================
