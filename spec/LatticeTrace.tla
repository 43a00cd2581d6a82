---------------------------- MODULE LatticeTrace ----------------------------
(* Recorded graphs, read up to the names of nodes: the distinct nodes         *)
(* [sf, pos, w, best, in, out, n] (n: how many of them) and the distinct      *)
(* edges [a, b, c, bold, n] between them.  The machine of Analyzer offers the *)
(* candidates, those that are drawn are collected, and the two graphs have to *)
(* be the same bags of nodes and edges.                                       *)
EXTENDS Lattice, TLC, Json, IOUtils, FiniteSetsExt
Data == JsonDeserialize(IOEnv.TRACE_FILE)
Recs == Data.recs
Dicts == Data.dicts
VARIABLES rid, ph, T, i, q, N, why
vars == <<rid, ph, T, i, q, N, why>>
R == Recs[rid]
D == Dicts[R.d]
B == R.in

TraceInit ==
  /\ rid \in 1..Len(Recs)
  /\ ph = (IF Recs[rid].err = "" THEN "scan" ELSE "done") /\ T = EmptyText /\ i = 1 /\ q = 1 /\ N = {}
  /\ why = (IF Recs[rid].err = "" THEN "" ELSE "failed: " \o Recs[rid].err)
RECURSIVE ScanSome(_, _)
ScanSome(t, k) == IF k = 0 \/ ScanDone(B, t) THEN t ELSE ScanSome(ScanOne(D, B, t), k - 1)
Scan ==
  /\ ph = "scan"
  /\ IF ScanDone(B, T) THEN T' = ScanEnd(T) /\ ph' = "walk" ELSE T' = ScanSome(T, 64) /\ UNCHANGED ph
  /\ UNCHANGED <<rid, i, q, N, why>>
Offer ==
  /\ ph = "walk" /\ i <= Len(T.rn)
  /\ LET q_ == RunIndex(T, q, i)
     IN q' = q_ /\ N' = N \cup Drawn(D, B, T, i, Candidates(D, B, T, i, T.brk[q_]), R.tk)
  /\ i' = i + 1 /\ UNCHANGED <<rid, ph, T, why>>

(* expected nodes with their degrees; x is joined to those that start at x.e *)
All == N \cup {BosNode, EosNode(Len(T.rn))}
Key(x, starts, ends) == [sf |-> x.sf, pos |-> x.pos, w |-> x.w, best |-> x.best,
                         in |-> Cardinality(ends[x.s]), out |-> Cardinality(starts[x.e])]
RecKey(n) == [sf |-> n.sf, pos |-> n.pos, w |-> n.w, best |-> n.best, in |-> n.in, out |-> n.out]
Sum(f, n) == LET RECURSIVE S(_) S(k) == IF k = 0 THEN 0 ELSE f[k] + S(k - 1) IN S(n)

Compare ==
  LET nodes == All
      m == Len(T.rn) + 2
      starts == TLCEval([p \in 0..m |-> {x \in nodes : x.s = p}])
      ends == TLCEval([p \in 0..m |-> {x \in nodes : x.e = p}])
      key == TLCEval([x \in nodes |-> Key(x, starts, ends)])
      G == R.g
      cls == TLCEval([k \in 1..Len(G.nodes) |-> {x \in nodes : key[x] = RecKey(G.nodes[k])}])
      badNodes == {k \in 1..Len(G.nodes) : Cardinality(cls[k]) # G.nodes[k].n}
      nedges == Sum([p \in 1..m |-> Cardinality(ends[p]) * Cardinality(starts[p])], m)
      badEdges == {k \in 1..Len(G.edges) :
        LET g == G.edges[k]
        IN Cardinality(UNION {{<<x, y>> : y \in {z \in starts[x.e] :
             z \in cls[g.b] /\ LinkCost(D, x, z) = g.c /\ Bold(x, z) = g.bold}} : x \in cls[g.a]}) # g.n}
  IN IF badNodes # {} THEN "a node of the graph is no candidate word, has a wrong label, or is not joined to its neighbours"
     ELSE IF Sum([k \in 1..Len(G.nodes) |-> G.nodes[k].n], Len(G.nodes)) # Cardinality(nodes) THEN "a candidate word is not drawn"
     ELSE IF badEdges # {} THEN "an edge joins the wrong words or has a wrong cost or highlighting"
     ELSE IF Sum([k \in 1..Len(G.edges) |-> G.edges[k].n], Len(G.edges)) # nedges THEN "an edge is missing"
     ELSE ""
Finish == /\ ph = "walk" /\ i > Len(T.rn) /\ ph' = "done" /\ why' = Compare
          /\ UNCHANGED <<rid, T, i, q, N>>
TraceSpec == TraceInit /\ [][Scan \/ Offer \/ Finish]_vars
Verdict == ph = "done" => PrintT("V|" \o ToString(rid) \o (IF why = "" THEN "|ok" ELSE "|bad|C09 mode=" \o ToString(R.mode) \o " " \o why))
=============================================================================
