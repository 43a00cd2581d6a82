--------------------------- MODULE TokenViewTrace ---------------------------
(* Recorded observations.  Each token is observed, everything handed out is   *)
(* overwritten, and it is observed again; pairs are compared for equality.    *)
EXTENDS TokenView, TLC, Json, IOUtils
Data == JsonDeserialize(IOEnv.TRACE_FILE)
Recs == Data.recs
VARIABLES rid, k, why
vars == <<rid, k, why>>
R == Recs[rid]
TraceInit == rid \in 1..Len(Recs) /\ k = 1 /\ why = (IF Recs[rid].err = "" THEN "" ELSE "failed: " \o Recs[rid].err)
Fields == {"features", "at", "pos", "itype", "iform", "base", "reading", "pron", "extra", "class", "data"}
Differ(a, b) == {f \in Fields : a[f] # b[f]}
Observe ==
  /\ why = "" /\ k <= Len(R.toks)
  /\ LET t == R.toks[k]
         v == View(t, t.ent, R.range)
         d1 == Differ(v, t.obs1)  d2 == Differ(v, t.obs2)
     IN why' = IF d1 # {} THEN "token " \o ToString(k) \o ": " \o (CHOOSE f \in d1 : TRUE) \o " differs from the dictionary"
               ELSE IF d2 # {} THEN "token " \o ToString(k) \o ": " \o (CHOOSE f \in d2 : TRUE) \o " changed by writing to a result"
               ELSE ""
  /\ k' = k + 1 /\ UNCHANGED rid
Same(t, u) == t.id = u.id /\ t.cl = u.cl /\ t.sf = u.sf
Compare ==
  /\ why = "" /\ k > Len(R.toks) /\ k <= Len(R.toks) + Len(R.pairs)
  /\ LET p == R.pairs[k - Len(R.toks)]
         t == R.toks[p.a]  u == R.toks[p.b]
     IN why' = IF p.ef # (Features(t.cl, t.ent) = Features(u.cl, u.ent)) THEN "EqualFeatures is wrong"
               ELSE IF p.ep # (Pos(t.cl, t.ent) = Pos(u.cl, u.ent)) THEN "EqualPOS is wrong"
               ELSE IF p.eq # Same(t, u) THEN "Equal is wrong" ELSE ""
  /\ k' = k + 1 /\ UNCHANGED rid
TraceSpec == TraceInit /\ [][Observe \/ Compare]_vars
Verdict == (why # "" \/ k > Len(R.toks) + Len(R.pairs)) =>
  PrintT("V|" \o ToString(rid) \o (IF why = "" THEN "|ok" ELSE "|bad|C07 " \o why))
=============================================================================
