-------------------------- MODULE TokenFilterTrace --------------------------
(* Recorded sequences of filters on tokens of the real tokenizer.             *)
EXTENDS TokenFilter, TLC, Json, IOUtils
Data == JsonDeserialize(IOEnv.TRACE_FILE)
Recs == Data.recs
VARIABLES rid, k, toks, why
vars == <<rid, k, toks, why>>
R == Recs[rid]
TraceInit == /\ rid \in 1..Len(Recs) /\ k = 1 /\ toks = Recs[rid].start
             /\ why = (IF Recs[rid].err = "" THEN "" ELSE "failed: " \o Recs[rid].err)
Apply == /\ why = "" /\ k <= Len(R.ops)
         /\ LET op == R.ops[k]  want == Remaining(op, toks, R.tt, Data.any)
            IN /\ toks' = want
               /\ why' = IF op.res # want THEN "operation " \o ToString(k) \o " left other tokens"
                         ELSE IF op.kind = "fn" /\ op.asked # toks THEN "operation " \o ToString(k) \o " did not consult the predicate once per token"
                         ELSE ""
         /\ k' = k + 1 /\ UNCHANGED rid
TraceSpec == TraceInit /\ [][Apply]_vars
Verdict == (k > Len(R.ops) \/ why # "") =>
  PrintT("V|" \o ToString(rid) \o (IF why = "" THEN "|ok" ELSE "|bad|C11 " \o why))
=============================================================================
