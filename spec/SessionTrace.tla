---------------------------- MODULE SessionTrace ----------------------------
(* Recorded sessions: every call's result, and the same result read again     *)
(* later, has to be the one a fresh process gives for that call (canon).      *)
(* Results are kept in a table, as many calls have equal ones.                *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils
Data == JsonDeserialize(IOEnv.TRACE_FILE)
Recs == Data.recs
VARIABLES rid, k, why
vars == <<rid, k, why>>
R == Recs[rid]
TraceInit == rid \in 1..Len(Recs) /\ k = 1 /\ why = (IF Recs[rid].err = "" THEN "" ELSE "failed: " \o Recs[rid].err)
Same(r, c) == Data.ress[r] = Data.canon[c]
Call == /\ why = "" /\ k <= Len(R.calls)
        /\ LET x == R.calls[k]
           IN why' = IF ~Same(x[2], x[1]) THEN "call " \o ToString(k) \o " (" \o R.name \o ") returns another result than a fresh process"
                     ELSE IF x[3] # x[2] /\ ~Same(x[3], x[1]) THEN "the result of call " \o ToString(k) \o " changed afterwards"
                     ELSE ""
        /\ k' = k + 1 /\ UNCHANGED rid
TraceSpec == TraceInit /\ [][Call]_vars
Verdict == (why # "" \/ k > Len(R.calls)) =>
  PrintT("V|" \o ToString(rid) \o (IF why = "" THEN "|ok" ELSE "|bad|C06 " \o why))
=============================================================================
