------------------------- MODULE FeatureFilterTrace -------------------------
(* Recorded filters: patterns, and for a list of vectors the recorded answers *)
(* (features are strings).                                                    *)
EXTENDS FeatureFilter, TLC, Json, IOUtils
Data == JsonDeserialize(IOEnv.TRACE_FILE)
Recs == Data.recs
VARIABLES rid, k, why
R == Recs[rid]
TraceInit == rid \in 1..Len(Recs) /\ k = 1 /\ why = (IF Recs[rid].err = "" THEN "" ELSE "failed: " \o Recs[rid].err)
Check == /\ k <= Len(R.vs) /\ why = ""
         /\ k' = k + 1
         /\ why' = IF R.got[k] = Matches(R.ps, R.vs[k], R.any) THEN "" ELSE "wrong answer for vector " \o ToString(k)
         /\ UNCHANGED rid
TraceSpec == TraceInit /\ [][Check]_<<rid, k, why>>
Verdict == (k > Len(R.vs) \/ why # "") =>
  PrintT("V|" \o ToString(rid) \o (IF why = "" THEN "|ok" ELSE "|bad|C10 " \o why))
=============================================================================
