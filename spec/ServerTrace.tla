---------------------------- MODULE ServerTrace -----------------------------
(* Recorded lives of the real server, seen from outside.  Events <<op, r>>:   *)
(*   "start"           the server is started                                  *)
(*   "up"              it answers connections                                 *)
(*   "begin" r         request r is being handled                             *)
(*   "rest" r          all of it has been sent                                *)
(*   "answer" r / "cut" r   its complete and right answer came / did not come *)
(*   "refused" r       no connection for request r                            *)
(*   "stop"            the server is told to stop (logged before doing so)    *)
(*   "closed" / "open" some time after that connections are refused / are not *)
(*   "return" c        it returned, c = 0: without error (exit status 0)      *)
(*   "free" / "busy"   afterwards the address can be used / cannot            *)
(*   "stuck"           it did not return in time                              *)
(* An answer may be received after "return": it may have been under way.      *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
Data == JsonDeserialize(IOEnv.TRACE_FILE)
Recs == Data.recs
VARIABLES rid, k, w, why
vars == <<rid, k, w, why>>
R == Recs[rid]
World0 == [ph |-> "off", up |-> FALSE, asked |-> FALSE, closed |-> FALSE, run |-> {}, rest |-> {}, ended |-> {}]
TraceInit == rid \in 1..Len(Recs) /\ k = 1 /\ w = World0 /\ why = (IF Recs[rid].err = "" THEN "" ELSE "failed: " \o Recs[rid].err)
(* kind "life": a proper start; "inuse", "invalid": it must not serve; "early": told to stop while starting *)
Bad(x) == w' = w /\ why' = x
Ok(w2) == w' = w2 /\ why' = ""
Event ==
  /\ why = "" /\ k <= Len(R.ev)
  /\ LET op == R.ev[k][1]  r == R.ev[k][2]
     IN CASE op = "start" -> Ok([World0 EXCEPT !.ph = "on"])
          [] op = "up" -> IF R.kind = "life" THEN Ok([w EXCEPT !.up = TRUE]) ELSE Bad("it serves although it cannot")
          [] op = "down" -> IF R.kind = "life" THEN Bad("the server does not serve") ELSE Ok(w)
          [] op = "begin" -> IF w.closed THEN Bad("a request is handled after the server stopped listening") ELSE Ok([w EXCEPT !.run = @ \cup {r}])
          [] op = "refused" -> IF w.asked \/ w.ph = "over" THEN Ok(w) ELSE Bad("a request is refused before the server is told to stop")
          [] op = "rest" -> Ok([w EXCEPT !.rest = @ \cup {r}])
          [] op = "answer" -> IF r \in w.run THEN Ok([w EXCEPT !.ended = @ \cup {r}]) ELSE Bad("an answer to nothing")
          [] op = "cut" -> Bad("a request being handled is not answered completely")
          [] op = "stop" -> Ok([w EXCEPT !.asked = TRUE])
          [] op = "closed" -> Ok([w EXCEPT !.closed = TRUE])
          [] op = "open" -> Bad("the server goes on listening after it was told to stop")
          [] op = "return" ->
               IF w.run # w.rest THEN Bad("the server returned while a request was being handled")
               ELSE IF R.kind = "life" /\ ~w.asked THEN Bad("the server returned without being told to")
               ELSE IF R.kind = "life" /\ r # 0 THEN Bad("the server stopped with an error")
               ELSE IF R.kind \in {"inuse", "invalid"} /\ r = 0 THEN Bad("no error although it cannot serve")
               ELSE Ok([w EXCEPT !.ph = "over", !.closed = TRUE])
          [] op = "stuck" -> Bad("the server does not return")
          [] op = "free" -> Ok(w)
          [] op = "busy" -> Bad("the address is still in use after the server returned")
  /\ k' = k + 1 /\ UNCHANGED rid
End == why = "" /\ k = Len(R.ev) + 1 /\ k' = k + 1 /\ UNCHANGED <<rid, w>>
       /\ why' = IF w.run # w.ended THEN "a request being handled is never answered" ELSE IF w.ph # "over" THEN "driver: the life has no end" ELSE ""
TraceSpec == TraceInit /\ [][Event \/ End]_vars
Verdict == (why # "" \/ k > Len(R.ev) + 1) =>
  PrintT("V|" \o ToString(rid) \o (IF why = "" THEN "|ok" ELSE "|bad|C17 " \o R.kind \o " (" \o R.how \o "): " \o why))
=============================================================================
