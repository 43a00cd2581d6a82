------------------------------ MODULE Splitter ------------------------------
(* Splitting a text into sentences.                                           *)
(*                                                                            *)
(* The machine consumes the text character by character.  Its state st is     *)
(*   ph   "head" before a sentence, "body" inside it, "tail" after its end    *)
(*        has been seen but followers may still belong to it                  *)
(*   buf  the sentence so far                                                 *)
(*   n    its length in characters                                            *)
(*   nn   was the previous character of the text a line feed (as far as the   *)
(*        rule for blank lines is concerned)?                                 *)
(*   out  the finished sentences                                              *)
(* Settings S: [delim, fol : Seq(rune), skip, dlf : BOOLEAN, max : Int].      *)
EXTENDS Integers, Sequences, Utf8

LF == 10
InSeq(x, s) == \E k \in 1..Len(s) : s[k] = x

(* 。．！!？?   and   .｣」』)）｝}〉》 *)
DefaultSettings ==
  [delim |-> <<12290, 65294, 65281, 33, 65311, 63>>,
   fol   |-> <<46, 65379, 12301, 12303, 41, 65289, 65373, 125, 12297, 12299>>,
   skip  |-> TRUE, dlf |-> TRUE, max |-> 128]

Start == [ph |-> "head", buf |-> <<>>, n |-> 0, nn |-> FALSE, out |-> <<>>]
Emit(st) == [ph |-> "head", buf |-> <<>>, n |-> 0, nn |-> FALSE, out |-> Append(st.out, st.buf)]

Skipped(S, r) == S.skip /\ IsSpaceRune(r)
BlankLine(S, st, r) == S.dlf /\ r = LF /\ st.nn

(* a character of white space that is skipped *)
SkipChar(S, st, r) ==
  IF st.ph = "head" THEN st
  ELSE IF st.ph = "body" /\ InSeq(r, S.delim) THEN Emit(st)
  ELSE IF BlankLine(S, st, r) THEN Emit(st)
  ELSE [st EXCEPT !.nn = (S.dlf /\ r = LF)]

(* a character that belongs to the text's sentences *)
BodyChar(S, st, r, c) ==
  LET s2 == [st EXCEPT !.ph = "body", !.buf = @ \o c, !.n = @ + 1, !.nn = (S.dlf /\ r = LF)]
  IN IF BlankLine(S, st, r) THEN Emit(s2)
     ELSE IF InSeq(r, S.delim) \/ s2.n >= S.max THEN [s2 EXCEPT !.ph = "tail", !.nn = FALSE]
     ELSE s2

(* consume the character with code r and bytes c *)
Feed(S, st, r, c) ==
  IF Skipped(S, r) THEN SkipChar(S, st, r)
  ELSE IF st.ph = "tail"
       THEN IF InSeq(r, S.delim) \/ InSeq(r, S.fol)
            THEN [st EXCEPT !.buf = @ \o c, !.nn = FALSE]
            ELSE BodyChar(S, Emit(st), r, c)
       ELSE BodyChar(S, st, r, c)

(* the end of the text *)
Close(st) == IF st.ph = "head" THEN st ELSE Emit(st)

(* the end of the run of copies of the character of n bytes at i *)
RunEnd(b, i, n) ==
  LET j == CHOOSE j \in (i + n)..(Len(b) + 1) : j = Len(b) + 1 \/ b[j] # b[j - n]
  IN i + n * ((j - i) \div n)
RECURSIVE RunFrom(_, _, _, _)
(* a character that changes nothing changes nothing when it is repeated *)
RunFrom(S, b, i, st) ==
  IF i > Len(b) THEN Close(st)
  ELSE LET d == DecodeAt(b, i)
           s2 == Feed(S, st, d[1], SubSeq(b, i, i + d[2] - 1))
       IN RunFrom(S, b, IF Skipped(S, d[1]) /\ s2 = st THEN RunEnd(b, i, d[2]) ELSE i + d[2], s2)
(* the sentences of a text *)
Sentences(S, b) == RunFrom(S, b, 1, Start).out

RECURSIVE Flatten(_)
Flatten(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Flatten(Tail(ss))
RECURSIVE ContentFrom(_, _, _)
ContentFrom(S, b, i) ==
  IF i > Len(b) THEN <<>>
  ELSE LET d == DecodeAt(b, i)
       IN (IF Skipped(S, d[1]) THEN <<>> ELSE SubSeq(b, i, i + d[2] - 1)) \o ContentFrom(S, b, i + d[2])
(* what must be left of the text *)
Content(S, b) == ContentFrom(S, b, 1)

-----------------------------------------------------------------------------
(* The split function: what a scanner is told about the data it has.  It runs *)
(* the machine over the characters that are complete; if a sentence is        *)
(* finished by then, it is handed out, otherwise more data is requested and   *)
(* only the white space before the sentence is given up.                      *)
RECURSIVE ScanFrom(_, _, _, _, _, _)
ScanFrom(S, data, eof, i, st, lead) ==
  IF i > Len(data) \/ (~eof /\ Incomplete(data, i))
  THEN IF eof THEN [adv |-> Len(data), tok |-> Close(st).out]
       ELSE [adv |-> lead, tok |-> <<>>]
  ELSE LET d == DecodeAt(data, i)
           c == SubSeq(data, i, i + d[2] - 1)
           s2 == Feed(S, st, d[1], c)
       IN IF Len(s2.out) > 0
          THEN [adv |-> IF s2.ph = "head" THEN i + d[2] - 1 ELSE i - 1, tok |-> <<s2.out[1]>>]
          ELSE ScanFrom(S, data, eof, i + d[2], s2,
                        IF s2.ph = "head" THEN i + d[2] - 1 ELSE lead)
(* an emission leaves the machine in "head" if the character was consumed by  *)
(* the finished sentence; otherwise it already belongs to the next one.       *)
SplitFn(S, data, eof) ==
  IF Len(data) = 0 THEN [adv |-> 0, tok |-> <<>>] ELSE ScanFrom(S, data, eof, 1, Start, 0)
=============================================================================
