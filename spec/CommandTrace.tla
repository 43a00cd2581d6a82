---------------------------- MODULE CommandTrace ----------------------------
(* Recorded runs of the executable.  A record of a text command holds the     *)
(* input, the analyses of its pieces by the library (canon) and the output,   *)
(* as bytes or, with -json, as arrays of token data.                          *)
(*   fail  "": the run has to succeed                                         *)
(*         "before": it has to fail before printing anything                  *)
(*         "output": its output cannot be written, it has to fail             *)
(*         "long": an over-long line, or sentence, follows the input; it has  *)
(*                 to fail after the pieces before, or else to handle it and  *)
(*                 all that follows it (longok)                               *)
EXTENDS Command, TLC, Json, IOUtils
Data == JsonDeserialize(IOEnv.TRACE_FILE)
Recs == Data.recs
VARIABLES rid, ph, ps, k, o, why
vars == <<rid, ph, ps, k, o, why>>
R == Recs[rid]
TraceInit == /\ rid \in 1..Len(Recs) /\ ph = "start" /\ ps = <<>> /\ k = 1 /\ o = 0
             /\ why = (IF Recs[rid].err = "" THEN "" ELSE "failed: " \o Recs[rid].err)

Failed == R.exit # 0 /\ R.said
LatticeWhy ==
  IF R.exit # 0 THEN "the command failed"
  ELSE IF R.g # R.cg THEN "another graph than the library's"
  ELSE IF R.extra # 0 THEN "output beside the graph"
  ELSE IF R.verr # (IF R.verbose THEN TokenLines(R.toks) ELSE <<>>) THEN "other tokens on standard error"
  ELSE ""
Begin ==
  /\ why = "" /\ ph = "start"
  /\ IF R.fail \in {"before", "output"}
     THEN /\ ph' = "done" /\ UNCHANGED ps
          /\ why' = IF R.exit = 0 THEN (IF R.fail = "output" THEN "success although the graph could not be written" ELSE "success in spite of a failure")
                    ELSE IF ~R.said THEN "failure without a message"
                    ELSE IF Len(R.out) > 0 THEN "output in spite of a failure" ELSE ""
     ELSE IF R.cmd = "lattice" THEN ph' = "done" /\ why' = LatticeWhy /\ UNCHANGED ps
     ELSE ph' = "run" /\ ps' = Pieces(R.cmd, R.split, R.in) /\ UNCHANGED why
  /\ UNCHANGED <<rid, k, o>>

Analysis(p) == LET K == {x \in 1..Len(R.canon) : R.canon[x].t = p} IN R.canon[CHOOSE x \in K : TRUE]
Known(p) == \E x \in 1..Len(R.canon) : R.canon[x].t = p
Piece ==
  /\ why = "" /\ ph = "run" /\ k <= Len(ps)
  /\ LET p == ps[k]
     IN IF R.cmd = "tokenize" /\ ~Known(p) THEN why' = "driver: piece unknown" /\ UNCHANGED o
        ELSE IF R.json
        THEN /\ o' = o + 1
             /\ why' = IF k > Len(R.outj) THEN "output is missing" ELSE IF R.outj[k] # Analysis(p).data THEN "other token data than the library's" ELSE ""
        ELSE LET e == PieceOutput(R.cmd, p, IF R.cmd = "tokenize" THEN Analysis(p).toks ELSE <<>>)
             IN /\ o' = o + Len(e)
                /\ why' = IF o + Len(e) > Len(R.out) THEN "output is missing"
                          ELSE IF SubSeq(R.out, o + 1, o + Len(e)) # e THEN "other output than the library's analysis" ELSE ""
  /\ k' = k + 1 /\ UNCHANGED <<rid, ph, ps>>
Left == IF R.json THEN Len(R.outj) - o ELSE Len(R.out) - o
End ==
  /\ why = "" /\ ph = "run" /\ k > Len(ps)
  /\ ph' = "done"
  /\ why' = IF R.fail = "long"
            THEN (IF (Failed /\ Left = 0) \/ (R.exit = 0 /\ R.longok) THEN "" ELSE "an over-long line or sentence is neither handled nor reported")
            ELSE IF R.exit # 0 THEN "the command failed"
            ELSE IF Left # 0 THEN "output for nothing" ELSE ""
  /\ UNCHANGED <<rid, ps, k, o>>
TraceSpec == TraceInit /\ [][Begin \/ Piece \/ End]_vars
Tag == IF R.cmd = "tokenize" THEN "C15 " ELSE "C21 "
Verdict == (why # "" \/ ph = "done") =>
  PrintT("V|" \o ToString(rid) \o (IF why = "" THEN "|ok" ELSE "|bad|" \o Tag \o R.cmd \o ": " \o why))
=============================================================================
