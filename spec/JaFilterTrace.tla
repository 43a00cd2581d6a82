---------------------------- MODULE JaFilterTrace ---------------------------
(* Recorded runs of the Japanese filter.  Per option either the given list or *)
(* the default one, which is ja_defaults.json of this directory.              *)
EXTENDS JaFilter, TLC, Json, IOUtils
Data == JsonDeserialize(IOEnv.TRACE_FILE)
Defaults == JsonDeserialize("ja_defaults.json")
Recs == Data.recs
AnyF == Data.any
VARIABLES rid, k, ys, ds, ph
vars == <<rid, k, ys, ds, ph>>
R == Recs[rid]
F == [tags  |-> IF R.dtags THEN Defaults.tags ELSE R.tags,
      words |-> IF R.dwords THEN Defaults.words ELSE R.words,
      base  |-> IF R.dbase THEN Defaults.base ELSE R.base]
TraceInit == rid \in 1..Len(Recs) /\ k = 1 /\ ys = <<>> /\ ds = <<>> /\ ph = (IF Recs[rid].err = "" THEN "run" ELSE "done")
Token == /\ ph = "run" /\ k <= Len(R.toks)
         /\ ys' = ys \o YieldOne(F, R.toks[k], AnyF)
         /\ ds' = IF Stopped(F, R.toks[k], AnyF) THEN ds ELSE Append(ds, k)
         /\ k' = k + 1 /\ UNCHANGED <<rid, ph>>
Finish == ph = "run" /\ k > Len(R.toks) /\ ph' = "done" /\ UNCHANGED <<rid, k, ys, ds>>
TraceSpec == TraceInit /\ [][Token \/ Finish]_vars
Why == IF R.err # "" THEN "failed: " \o R.err
       ELSE IF R.yield # ys THEN "Yield returns other words"
       ELSE IF R.drop # ds THEN "Drop leaves other tokens" ELSE ""
Verdict == ph = "done" =>
  PrintT("V|" \o ToString(rid) \o (IF Why = "" THEN "|ok" ELSE "|bad|C12 " \o Why))
=============================================================================
