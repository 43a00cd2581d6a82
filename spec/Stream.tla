------------------------------- MODULE Stream -------------------------------
(* The commands that read a text, as filters: while their input stays open,   *)
(* they have answered everything that what they have read so far determines.  *)
EXTENDS Command

(* the complete lines of b *)
ClosedLines(b) == LET L == Lines(b) IN IF b = <<>> \/ b[Len(b)] = LF THEN L ELSE SubSeq(L, 1, Len(L) - 1)

(* the sentences finished by the complete characters of b *)
RECURSIVE OpenFrom(_, _, _, _)
OpenFrom(S, b, i, st) ==
  IF i > Len(b) \/ Incomplete(b, i) THEN st.out
  ELSE LET d == DecodeAt(b, i)
       IN OpenFrom(S, b, i + d[2], Feed(S, st, d[1], SubSeq(b, i, i + d[2] - 1)))
OpenSentences(b) == IF b = <<>> THEN <<>> ELSE OpenFrom(DefaultSettings, b, 1, Start)

Determined(cmd, split, b) == IF cmd = "sentence" \/ split THEN OpenSentences(b) ELSE ClosedLines(b)
=============================================================================
