----------------------------- MODULE StreamTrace ----------------------------
(* Recorded runs of the executable with an input that arrives in pieces: after*)
(* each piece (cuts[k] bytes so far) the recorder waited for the output to be *)
(* what is due, or for a long time, and wrote down how much output there was  *)
(* (outs[k]: bytes or, with -json, arrays), then went on.                     *)
EXTENDS Stream, TLC, Json, IOUtils
Data == JsonDeserialize(IOEnv.TRACE_FILE)
Recs == Data.recs
VARIABLES rid, k, i, st, ps, j, o, why
vars == <<rid, k, i, st, ps, j, o, why>>
R == Recs[rid]
TraceInit == /\ rid \in 1..Len(Recs) /\ k = 0 /\ i = 1 /\ st = Start /\ ps = <<>> /\ j = 1 /\ o = 0
             /\ why = (IF Recs[rid].err = "" THEN "" ELSE "failed: " \o Recs[rid].err)
Analysis(p) == LET K == {x \in 1..Len(R.canon) : R.canon[x].t = p} IN R.canon[CHOOSE x \in K : TRUE]
Known(p) == \E x \in 1..Len(R.canon) : R.canon[x].t = p
(* the next piece that is due has to be there already *)
Piece ==
  /\ why = "" /\ Len(ps) > 0
  /\ LET p == Head(ps)
     IN IF R.cmd = "tokenize" /\ ~Known(p) THEN why' = "driver: piece unknown" /\ UNCHANGED o
        ELSE IF R.json
        THEN /\ o' = o + 1
             /\ why' = IF R.outs[k] < o + 1 THEN "output is withheld"
                       ELSE IF R.outj[j] # Analysis(p).data THEN "other token data than the library's" ELSE ""
        ELSE LET e == PieceOutput(R.cmd, p, IF R.cmd = "tokenize" THEN Analysis(p).toks ELSE <<>>)
             IN /\ o' = o + Len(e)
                /\ why' = IF R.outs[k] < o + Len(e) THEN "output is withheld"
                          ELSE IF SubSeq(R.out, o + 1, o + Len(e)) # e THEN "other output than the library's analysis" ELSE ""
  /\ j' = j + 1 /\ ps' = Tail(ps) /\ UNCHANGED <<rid, k, i, st>>

(* Determined, in steps of a line or of a character *)
Cut == IF k = 0 THEN 0 ELSE R.cuts[k]
BySentence == R.cmd = "sentence" \/ R.split
Window == SubSeq(R.in, i, IF i + 3 < Cut THEN i + 3 ELSE Cut)
Feedable == IF i > Cut THEN FALSE
            ELSE IF BySentence THEN ~Incomplete(Window, 1)
            ELSE LET f == NextFeed(R.in, i) IN f # 0 /\ f <= Cut
Read ==
  /\ why = "" /\ ps = <<>> /\ k <= Len(R.cuts) /\ Feedable
  /\ IF BySentence
     THEN LET d == DecodeAt(Window, 1)
              s2 == Feed(DefaultSettings, st, d[1], SubSeq(Window, 1, d[2]))
          IN i' = i + d[2] /\ ps' = s2.out /\ st' = [s2 EXCEPT !.out = <<>>]
     ELSE LET f == NextFeed(R.in, i)
          IN i' = f + 1 /\ ps' = <<Chomp(SubSeq(R.in, i, f - 1))>> /\ UNCHANGED st
  /\ UNCHANGED <<rid, k, j, o, why>>
(* nothing more is due: more input *)
Observe ==
  /\ why = "" /\ ps = <<>> /\ k < Len(R.cuts) /\ ~Feedable
  /\ k' = k + 1 /\ UNCHANGED <<rid, i, st, ps, j, o, why>>
End ==
  /\ why = "" /\ ps = <<>> /\ k = Len(R.cuts) /\ ~Feedable
  /\ why' = IF R.exit # 0 THEN "the command failed" ELSE ""
  /\ k' = k + 1 /\ UNCHANGED <<rid, i, st, ps, j, o>>
TraceSpec == TraceInit /\ [][Observe \/ Read \/ Piece \/ End]_vars
Verdict == (why # "" \/ k = Len(R.cuts) + 1) =>
  PrintT("V|" \o ToString(rid) \o (IF why = "" THEN "|ok" ELSE "|bad|C22 " \o R.cmd \o ": " \o why))
=============================================================================
