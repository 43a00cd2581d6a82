------------------------------ MODULE GraphMC -------------------------------
(* The graphs of all small dictionaries and texts of AnalyzerMC, for every    *)
(* cheapest segmentation and mode: what is highlighted is the path, the       *)
(* labels add up to its cost; printed for replay.                             *)
EXTENDS AnalyzerMC, Lattice

NoMeta == [start |-> -1, hier |-> -1, itype |-> -1, iform |-> -1, base |-> -1, read |-> -1, pron |-> -1]
Entry(pos, cont) == [pos |-> pos, cont |-> cont, meta |-> NoMeta, utok |-> <<>>, uyomi |-> <<>>]
G == [k \in DOMAIN D |-> D[k]] @@
     [kent  |-> [j \in 1..Len(D.kmorph) |-> Entry(IF j % 2 = 1 THEN <<"n">> ELSE <<"v", "*", "w">>, <<>>)],
      uent  |-> [j \in 1..Len(D.umorph) |-> Entry(<<>>, IF j = 3 THEN <<"*">> ELSE <<"u">>)],
      usent |-> [j \in 1..Len(D.user) |-> Entry(<<"p">>, <<>>)]]

(* the tokens of a segmentation in a mode *)
Tok(c, cl, st, en) == [cl |-> cl, id |-> c.id, st |-> st, en |-> en]
RECURSIVE Tokens(_, _)
Tokens(p, mode) ==
  IF p = <<>> THEN <<>>
  ELSE (IF mode = ExtendedMode /\ p[1].cl = UNKNOWN
        THEN [k \in 1..(p[1].e - p[1].s) |-> Tok(p[1], DUMMY, p[1].s + k - 2, p[1].s + k - 1)]
        ELSE <<Tok(p[1], p[1].cl, p[1].s - 1, p[1].e - 1)>>) \o Tokens(Tail(p), mode)
Nodes(p, mode) == {BosNode, EosNode(N)} \cup UNION {Drawn(G, b, T, j, CandsAt(j), Tokens(p, mode)) : j \in 1..N}
Edges(nodes) == {e \in nodes \X nodes : Joined(e[1], e[2])}
BestPaths(mode) ==
  LET ps == Paths(1)
      m == IF mode = NormalMode THEN NormalMode ELSE SearchMode
      f == [p \in ps |-> PathCost(p, 1, 0, FALSE, m)]
      least == MinOf({f[p] : p \in ps})
  IN {p \in ps : f[p] = least}

(* the bold edges lead from BOS through the words to EOS, and their costs and *)
(* those of their words add up                                                *)
RECURSIVE Walk(_, _, _)
Walk(x, bold, sum) ==
  LET out == {e \in bold : e[1] = x}
  IN IF out = {} THEN <<x, 0, sum>>
     ELSE LET e == CHOOSE e \in out : TRUE
              w == Walk(e[2], bold \ {e}, sum + LinkCost(G, e[1], e[2]) + e[2].w)
          IN <<w[1], w[2] + 1, w[3]>>
Highlighted == ph = "done" =>
  \A mode \in {NormalMode, SearchMode} : \A p \in BestPaths(mode) :
    LET nodes == Nodes(p, mode)
        bold == {e \in Edges(nodes) : Bold(e[1], e[2])}
        w == Walk(BosNode, bold, 0)
    IN /\ Cardinality({x \in nodes : x.best}) = Len(p) + 2
       /\ Cardinality(bold) = Len(p) + 1
       /\ w[1] = EosNode(N) /\ w[2] = Len(p) + 1
       /\ w[3] = PathCost(p, 1, 0, FALSE, NormalMode)
(* every word of a dictionary is drawn, whatever the path *)
AllDrawn == ph = "done" => \A p \in BestPaths(NormalMode) :
  Cardinality({x \in Nodes(p, NormalMode) : x.cl \in {KNOWN, USER}}) =
  Cardinality(UNION {{<<j, c>> : c \in {c \in CandsAt(j) : c.cl # UNKNOWN}} : j \in 1..N})

Position(s, x) == CHOOSE k \in 1..Len(s) : s[k] = x
Drawing(p, mode) ==
  LET nodes == Nodes(p, mode)  s == ToSeq(nodes)
  IN <<[k \in 1..Len(Tokens(p, mode)) |-> LET t == Tokens(p, mode)[k] IN <<t.st + 1, t.cl, t.id, t.en + 1>>],
       [k \in 1..Len(s) |-> <<s[k].sf, s[k].pos, s[k].w, Bit(s[k].best)>>],
       {<<Position(s, e[1]), Position(s, e[2]), LinkCost(G, e[1], e[2]), Bit(Bold(e[1], e[2]))>> : e \in Edges(nodes)}>>
GenerateGraph == ph = "done" =>
  PrintT("G|" \o ToString(<<
       [k \in 1..Len(D.known) |-> <<D.known[k].s, D.known[k].m>>],
       [k \in 1..Len(D.kmorph) |-> Costs(D.kmorph[k])],
       Bit(D.hasu), [k \in 1..Len(D.user) |-> D.user[k].s],
       <<Bit(D.invoke[1]), Bit(D.invoke[2])>>, <<Bit(D.group[1]), Bit(D.group[2])>>,
       [k \in 1..Len(D.umorph) |-> Costs(D.umorph[k])], D.conn, b,
       [mode \in 1..3 |-> {Drawing(p, mode) : p \in BestPaths(mode)}]>>))
=============================================================================
