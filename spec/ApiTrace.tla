------------------------------ MODULE ApiTrace ------------------------------
(* Recorded connections to the real server.  An exchange holds the form of    *)
(* the request, the number t of its text, and the answer: code, whether it    *)
(* came completely and is one JSON object (ok), its status, its tokens (by    *)
(* numbers that stand for their data) and whether it has an error message: 1  *)
(* if that is the message of the JSON package for this body, 2 another one.   *)
(* An exchange with "gone" was broken off by the client.                      *)
EXTENDS Api, Json, IOUtils
Data == JsonDeserialize(IOEnv.TRACE_FILE)
Recs == Data.recs
Canon == Data.canon        \* Canon[server][text][mode]: the library's analysis
VARIABLES rid, k, why
vars == <<rid, k, why>>
R == Recs[rid]
TraceInit == rid \in 1..Len(Recs) /\ k = 1 /\ why = (IF Recs[rid].err = "" THEN "" ELSE "failed: " \o Recs[rid].err)
Fits(a, e) ==
  /\ e.code = a.code /\ e.status = (IF a.status THEN 1 ELSE 0)
  /\ IF a.status THEN /\ e.haserr = 0 /\ e.hastok = 1
                      /\ e.toks = IF a.mode = 0 THEN <<>> ELSE Canon[R.srv][e.t][a.mode]
     ELSE e.haserr = 1 /\ e.hastok = 0
Reason(q, e) ==
  IF e.ok = 0 THEN "no complete JSON answer"
  ELSE IF \A a \in Answers(q) : e.code # a.code THEN "another status code"
  ELSE IF Answer(q).status /\ e.status = 1 THEN "other tokens than the library's"
  ELSE "another answer"
Exchange ==
  /\ why = "" /\ k <= Len(R.ex)
  /\ LET e == R.ex[k]
         q == [k |-> e.q[1], s |-> e.q[2], m |-> e.q[3], x |-> e.q[4] = "1"]
     IN why' = IF q \notin Forms THEN "driver: unknown form"
               ELSE IF e.gone = 1 \/ (e.ok = 1 /\ \E a \in Answers(q) : Fits(a, e)) THEN ""
               ELSE Reason(q, e) \o " to <" \o q.k \o "," \o q.s \o "," \o q.m \o ">"
  /\ k' = k + 1 /\ UNCHANGED rid
TraceSpec == TraceInit /\ [][Exchange]_vars
Verdict == (why # "" \/ k > Len(R.ex)) =>
  PrintT("V|" \o ToString(rid) \o (IF why = "" THEN "|ok" ELSE "|bad|C16 " \o R.how \o ": " \o why))
=============================================================================
