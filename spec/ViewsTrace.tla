----------------------------- MODULE ViewsTrace -----------------------------
(* Recorded tokenizer creations and the views taken through them.  canon[b]   *)
(* holds, per user dictionary (none, first, second), what Analyze returned in *)
(* the three modes from a tokenizer created without further options.          *)
EXTENDS Views, TLC, Json, IOUtils
Data == JsonDeserialize(IOEnv.TRACE_FILE)
Recs == Data.recs
VARIABLES rid, k, conf, why
vars == <<rid, k, conf, why>>
R == Recs[rid]
TraceInit == /\ rid \in 1..Len(Recs) /\ k = 0 /\ conf = Config0(Recs[rid].sys)
             /\ why = (IF Recs[rid].err = "" THEN "" ELSE "failed: " \o Recs[rid].err)
Create ==
  /\ why = "" /\ k = 0
  /\ LET c == Configured(conf, R.opts)
     IN /\ conf' = c
        /\ why' = IF c.ok = R.ok THEN ""
                  ELSE IF R.ok THEN "a tokenizer was created from a missing dictionary or a failing option" ELSE "creating the tokenizer failed"
  /\ k' = 1 /\ UNCHANGED rid
Look ==
  /\ why = "" /\ k >= 1 /\ k <= Len(R.views)
  /\ LET v == R.views[k]
         canon == Data.canon[R.base][conf.user + 1]
         ok == IF v.kind = "wakati" THEN v.wk = Surfaces(canon) ELSE v.tk = TokensOf(canon, conf, v.kind, v.mode)
     IN why' = IF ok THEN "" ELSE v.kind \o " mode=" \o ToString(v.mode) \o " disagrees with Analyze"
  /\ k' = k + 1 /\ UNCHANGED <<rid, conf>>
TraceSpec == TraceInit /\ [][Create \/ Look]_vars
Verdict == (why # "" \/ k > Len(R.views)) =>
  PrintT("V|" \o ToString(rid) \o (IF why = "" THEN "|ok" ELSE "|bad|C08 " \o why))
=============================================================================
