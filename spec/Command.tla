------------------------------ MODULE Command -------------------------------
(* The commands that read a text: what they print, given the library's        *)
(* analysis of each piece of the text.                                        *)
(*   tokenize  pieces are lines, or sentences with -split                     *)
(*   sentence  pieces are sentences                                           *)
(* A run is a machine: it takes the next piece and appends its rendering to   *)
(* the output, until the input is exhausted or a failure ends it.             *)
EXTENDS Splitter

CR == 13   TAB == 9
Eos == <<69, 79, 83, 10>>
DummyClass == 0

(* lines: ended by a line feed, without a carriage return before it; a last   *)
(* line need not be ended                                                     *)
Chomp(l) == IF Len(l) > 0 /\ l[Len(l)] = CR THEN SubSeq(l, 1, Len(l) - 1) ELSE l
RECURSIVE NextFeed(_, _)
NextFeed(b, i) == IF i > Len(b) THEN 0 ELSE IF b[i] = LF THEN i ELSE NextFeed(b, i + 1)
RECURSIVE LinesFrom(_, _)
LinesFrom(b, i) ==
  IF i > Len(b) THEN <<>>
  ELSE LET f == NextFeed(b, i)
       IN IF f = 0 THEN <<Chomp(SubSeq(b, i, Len(b)))>>
          ELSE <<Chomp(SubSeq(b, i, f - 1))>> \o LinesFrom(b, f + 1)
Lines(b) == LinesFrom(b, 1)

Pieces(cmd, split, b) == IF cmd = "sentence" \/ split THEN Sentences(DefaultSettings, b) ELSE Lines(b)

RECURSIVE JoinBytes(_, _)
JoinBytes(s, sep) == IF s = <<>> THEN <<>> ELSE IF Len(s) = 1 THEN s[1] ELSE s[1] \o sep \o JoinBytes(Tail(s), sep)

(* a token [sf, cl, ft] on a line of its own *)
TokenLine(t) == t.sf \o (IF t.cl = DummyClass THEN <<>> ELSE <<TAB>> \o JoinBytes(t.ft, <<44>>)) \o <<LF>>
RECURSIVE TokenLines(_)
TokenLines(ts) == IF ts = <<>> THEN <<>> ELSE TokenLine(Head(ts)) \o TokenLines(Tail(ts))

(* the output for one piece: a is its analysis (without BOS and EOS) *)
PieceOutput(cmd, p, a) == IF cmd = "sentence" THEN p \o <<LF>> ELSE TokenLines(a) \o Eos
=============================================================================
