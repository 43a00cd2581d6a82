----------------------------- MODULE PoolTrace ------------------------------
(* Recorded uses of pools: events [u, op, p, o, m] in the order of a counter  *)
(* drawn after a Get returned and before a Put is called, so that an object   *)
(* owned twice shows as an event the world of Pool does not allow.            *)
(* op 1: got o (made by the constructor of pool m, 0: by none), 2: puts o,    *)
(* 3: brings o in from elsewhere, 4: found o changed while holding it.        *)
EXTENDS Pool, TLC, Json, IOUtils
Data == JsonDeserialize(IOEnv.TRACE_FILE)
Recs == Data.recs
VARIABLES rid, k, w, why
vars == <<rid, k, w, why>>
R == Recs[rid]
TraceInit == rid \in 1..Len(Recs) /\ k = 1 /\ w = World0 /\ why = (IF Recs[rid].err = "" THEN "" ELSE "failed: " \o Recs[rid].err)
Event ==
  /\ why = "" /\ k <= Len(R.ev)
  /\ LET x == R.ev[k]  u == x[1]  op == x[2]  p == x[3]  o == x[4]  m == x[5]
     IN CASE op = 1 -> IF MayGet(w, u, p, o, m) THEN w' = Get(w, u, p, o) /\ why' = ""
                       ELSE w' = w /\ why' = (IF o \in DOMAIN w.held THEN "an object is owned twice" ELSE "an object comes from nowhere or from another pool")
          [] op = 2 -> IF MayPut(w, u, p, o) THEN w' = Put(w, u, p, o) /\ why' = "" ELSE w' = w /\ why' = "put what is not held"
          [] op = 3 -> w' = Bring(w, u, o) /\ why' = ""
          [] op = 4 -> w' = w /\ why' = "an object changed while it was held"
  /\ k' = k + 1 /\ UNCHANGED rid
TraceSpec == TraceInit /\ [][Event]_vars
Verdict == (why # "" \/ k > Len(R.ev)) =>
  PrintT("V|" \o ToString(rid) \o (IF why = "" THEN "|ok" ELSE "|bad|C18 event " \o ToString(k - 1) \o ": " \o why))
=============================================================================
