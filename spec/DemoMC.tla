------------------------------- MODULE DemoMC -------------------------------
(*   h      the handler: "idle", "start", "run", "page"                       *)
(*   c      how much of the graph has been written to the pipe                *)
(*   pipe   how much is in the pipe (Cap at most)                             *)
(*   ren    the renderer: "none", "run", or how it ended                      *)
(*   cur    what it is at, prog what it has done                              *)
(*   inp, out   are its ends of the pipes open?                               *)
(*   kin, kout  does a child left behind hold the pipes open?                *)
(*   late   has the time of the page run out, or has its client gone?        *)
(*   got    how much it has read, fig is there a figure in its output?        *)
(*   page   [err, rows, fig]                                                  *)
EXTENDS Demo
CONSTANTS Graph, Cap, MaxProg, History
VARIABLES h, c, pipe, ren, cur, prog, inp, out, kin, kout, late, got, fig, avail, page
vars == <<h, c, pipe, ren, cur, prog, inp, out, kin, kout, late, got, fig, avail, page>>
NoPage == [err |-> FALSE, rows |-> FALSE, fig |-> FALSE]
Init == /\ h = "idle" /\ c = 0 /\ pipe = 0 /\ ren = "none" /\ cur = "" /\ prog = <<>> /\ inp = TRUE /\ out = TRUE /\ kin = FALSE /\ kout = FALSE /\ late = FALSE /\ got = 0 /\ fig = FALSE
        /\ avail \in (IF History THEN {TRUE} ELSE BOOLEAN) /\ page = NoPage
Request == h = "idle" /\ h' = "start" /\ UNCHANGED <<c, pipe, ren, cur, prog, inp, out, kin, kout, late, got, fig, avail, page>>
Launch == /\ h = "start"
          /\ IF avail THEN h' = "run" /\ ren' = "run" /\ UNCHANGED page
             ELSE h' = "page" /\ page' = [err |-> TRUE, rows |-> FALSE, fig |-> FALSE] /\ UNCHANGED ren
          /\ UNCHANGED <<c, pipe, cur, prog, inp, out, kin, kout, late, got, fig, avail>>
(* writing to a pipe nobody reads from ends the copying *)
Copy == /\ h = "run" /\ c < Graph
        /\ IF (ren # "run" \/ ~inp) /\ ~kin THEN c' = Graph /\ UNCHANGED pipe
           ELSE pipe < Cap /\ pipe' = pipe + 1 /\ c' = c + 1
        /\ UNCHANGED <<h, ren, cur, prog, inp, out, kin, kout, late, got, fig, avail, page>>
Eof == c = Graph /\ pipe = 0
Choose(a) == /\ ren = "run" /\ cur = "" /\ Len(prog) < MaxProg /\ cur' = a /\ prog' = Append(prog, a)
             /\ UNCHANGED <<h, c, pipe, ren, inp, out, kin, kout, late, got, fig, avail, page>>
Work == /\ ren = "run" /\ cur # ""
        /\ CASE cur \in {"readsome", "readall"} ->
                  IF ~inp \/ Eof THEN cur' = "" /\ UNCHANGED <<pipe, got, inp, out, fig>>
                  ELSE /\ pipe > 0 /\ pipe' = pipe - 1 /\ got' = got + 1
                       /\ cur' = (IF cur = "readall" THEN cur ELSE "") /\ UNCHANGED <<inp, out, fig>>
             [] cur = "svg" -> cur' = "" /\ fig' = (fig \/ out) /\ UNCHANGED <<pipe, got, inp, out>>
             [] cur = "closein" -> cur' = "" /\ inp' = FALSE /\ UNCHANGED <<pipe, got, out, fig>>
             [] cur = "closeout" -> cur' = "" /\ out' = FALSE /\ UNCHANGED <<pipe, got, inp, fig>>
             [] OTHER -> cur' = "" /\ UNCHANGED <<pipe, got, inp, out, fig>>
        /\ IF cur = "fork" THEN kin' = (kin \/ inp) /\ kout' = (kout \/ out) ELSE UNCHANGED <<kin, kout>>
        /\ UNCHANGED <<h, c, ren, prog, late, avail, page>>
Exit(e) == /\ ren = "run" /\ cur = "" /\ ren' = e /\ UNCHANGED <<h, c, pipe, cur, prog, inp, out, kin, kout, late, got, fig, avail, page>>
(* the time runs out or the client goes away: the renderer is killed, and nobody waits any longer *)
Expire == /\ h = "run" /\ ~late /\ late' = TRUE /\ ren' = (IF ren = "run" THEN "hang" ELSE ren)
          /\ UNCHANGED <<h, c, pipe, cur, prog, inp, out, kin, kout, got, fig, avail, page>>
(* the renderer has ended, the graph is written, and nobody holds the output *)
Finish == /\ h = "run" /\ h' = "page"
          /\ \/ /\ ren # "run" /\ c = Graph /\ ~kout
                /\ page' = IF ren = "exit0" THEN [err |-> FALSE, rows |-> TRUE, fig |-> fig] ELSE [err |-> TRUE, rows |-> FALSE, fig |-> FALSE]
             \/ late /\ page' = [err |-> TRUE, rows |-> FALSE, fig |-> FALSE]
          /\ UNCHANGED <<c, pipe, ren, cur, prog, inp, out, kin, kout, late, got, fig, avail>>
Next == \/ Request \/ Launch \/ Copy \/ Work \/ Expire \/ Finish
        \/ \E a \in Acts : Choose(a) \/ \E e \in {"exit0", "exit1", "signal"} : Exit(e)
(* nothing is assumed about the renderer *)
Spec == Init /\ [][Next]_vars /\ WF_vars(Launch) /\ WF_vars(Copy) /\ WF_vars(Expire) /\ WF_vars(Finish)

AlwaysAnswers == (h = "start") ~> (h = "page")
PageRight == h = "page" => /\ (MustFail(avail, prog, ren) => page.err)
                           /\ ((MustShow(avail, prog, ren) /\ ~late) => ~page.err /\ page.rows /\ page.fig /\ got = Graph)
                           /\ (page.rows => ~page.err)
(* nothing runs on for a page that is made *)
NothingLeft == h = "page" => ren # "run"
Bounded == pipe \in 0..Cap /\ got + pipe <= Graph
Generate == (History /\ h = "page" /\ cur = "") => PrintT("G|" \o ToString(<<prog, ren>>))
=============================================================================
