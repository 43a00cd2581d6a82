----------------------------- MODULE DemoTrace ------------------------------
(* Recorded requests to the real server's pages.  A record: kind ("lattice",  *)
(* "form": the page without lattice, "other": a request made meanwhile), what *)
(* the renderer was (avail, prog, end), and the answer: whether it came       *)
(* (got), after how many milliseconds (ms), whether all texts in it are       *)
(* escaped and right (esc), whether it reports an error (fails), its cells    *)
(* and the library's (by numbers), the figure (fig) and whether the renderer  *)
(* was given the library's graph (graph; 2: it did not keep it).  lim is when *)
(* the answer is due: at once when only renderers of other requests hang.     *)
(* kind "left": how many renderers (left) are there still, lim milliseconds   *)
(* after the last page that asked for them was answered or given up?          *)
EXTENDS Demo, Json, IOUtils
Data == JsonDeserialize(IOEnv.TRACE_FILE)
Recs == Data.recs
VARIABLES rid, why
R == Recs[rid]
Shows == R.fails = 0 /\ R.cells = R.want
Judge ==
  IF R.err # "" THEN "failed: " \o R.err
  ELSE IF R.kind = "left" THEN (IF R.left = 0 THEN "" ELSE "renderers of pages that are answered or given up are left")
  ELSE IF R.got = 0 THEN "no answer"
  ELSE IF R.ms > R.lim THEN "an answer after the time limit"
  ELSE IF R.esc = 0 THEN "text of the user is not shown, or not escaped"
  ELSE IF R.kind # "lattice" THEN ""
  ELSE IF MustFail(R.avail = 1, R.prog, R.end) THEN (IF R.fails = 1 THEN "" ELSE "a failure is not reported")
  ELSE IF MustShow(R.avail = 1, R.prog, R.end)
       THEN (IF R.fails = 1 THEN "an error in spite of success"
             ELSE IF R.cells # R.want THEN "other rows than the tokens of the library"
             ELSE IF R.fig = 0 THEN "no figure"
             ELSE IF R.graph = 0 THEN "the renderer was not given the graph" ELSE "")
  ELSE IF R.fails = 1 \/ Shows THEN "" ELSE "neither an error nor the tokens"
TraceInit == rid \in 1..Len(Recs) /\ why = "?"
TraceNext == why = "?" /\ why' = Judge /\ UNCHANGED rid
TraceSpec == TraceInit /\ [][TraceNext]_<<rid, why>>
Verdict == why # "?" => PrintT("V|" \o ToString(rid) \o (IF why = "" THEN "|ok" ELSE "|bad|C19 " \o R.kind \o " (" \o R.end \o "): " \o why))
=============================================================================
