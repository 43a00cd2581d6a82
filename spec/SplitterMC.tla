----------------------------- MODULE SplitterMC -----------------------------
(* A scanner reading a text in arbitrary pieces through the split function.   *)
(* With History the schedule is part of the state, so that every behaviour    *)
(* reaches its own final state and is printed there for replay on the code.   *)
EXTENDS Splitter, TLC

CONSTANTS MaxLen, SettingNos, History

A == <<97>>  SP == <<32>>  NL == <<10>>  MARU == <<227, 128, 130>>  KAGI == <<227, 128, 141>>  BAD == <<227>>
Chars == {A, SP, NL, MARU, KAGI, BAD}
RECURSIVE Texts(_)
Texts(n) == IF n = 0 THEN {<<>>} ELSE LET X == Texts(n - 1) IN X \cup {c \o t : c \in Chars, t \in X}

D1 == <<12290>>  F1 == <<12301>>
Setting(k) ==
  CASE k = 1 -> DefaultSettings
    [] k = 2 -> [delim |-> D1, fol |-> F1, skip |-> FALSE, dlf |-> TRUE, max |-> 128]
    [] k = 3 -> [delim |-> D1, fol |-> F1, skip |-> TRUE, dlf |-> FALSE, max |-> 128]
    [] k = 4 -> [delim |-> D1, fol |-> F1, skip |-> TRUE, dlf |-> TRUE, max |-> 2]
    [] k = 5 -> [delim |-> <<10, 12290>>, fol |-> <<32>>, skip |-> TRUE, dlf |-> FALSE, max |-> 3]
    [] k = 6 -> [delim |-> <<10>>, fol |-> <<32, 12301>>, skip |-> FALSE, dlf |-> TRUE, max |-> 3]
    [] k = 7 -> [delim |-> <<>>, fol |-> F1, skip |-> FALSE, dlf |-> FALSE, max |-> 1]

VARIABLES sn, b, rd, at, eof, ask, out, sch, ph
vars == <<sn, b, rd, at, eof, ask, out, sch, ph>>
S == Setting(sn)

Init == /\ sn \in SettingNos /\ b \in Texts(MaxLen)
        /\ rd = 0 /\ at = 0 /\ eof = FALSE /\ ask = TRUE /\ out = <<>> /\ sch = <<>> /\ ph = "run"

(* the reader delivers k more bytes, perhaps together with the end of file *)
Read == /\ ph = "run" /\ ask /\ ~eof
        /\ \E k \in 0..(Len(b) - rd), e \in BOOLEAN :
             /\ (k = 0 => e) /\ (e => rd + k = Len(b))
             /\ rd' = rd + k /\ eof' = e
             /\ sch' = IF History THEN sch \o (IF k > 0 THEN <<k>> ELSE <<>>) \o (IF e /\ k > 0 THEN <<-1>> ELSE <<>>) ELSE sch
        /\ ask' = FALSE
        /\ UNCHANGED <<sn, b, at, out, ph>>

Split == /\ ph = "run" /\ ~ask
         /\ LET x == SplitFn(S, SubSeq(b, at + 1, rd), eof)
            IN /\ at' = at + x.adv
               /\ out' = out \o x.tok
               /\ ask' = (x.tok = <<>> /\ ~eof)
               /\ ph' = IF eof /\ (at' = rd \/ (x.adv = 0 /\ x.tok = <<>>)) THEN "done" ELSE "run"
         /\ UNCHANGED <<sn, b, rd, eof, sch>>
Next == Read \/ Split
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

-----------------------------------------------------------------------------
Want == Sentences(S, b)
IsPrefixOf(x, y) == Len(x) <= Len(y) /\ SubSeq(y, 1, Len(x)) = x
(* whatever the schedule: only sentences of the text, in the end all of them *)
Safe == IsPrefixOf(out, Want) /\ (ph = "done" => out = Want)
NothingLost == ph = "done" => Flatten(out) = Content(S, b)
NoneEmpty == \A k \in 1..Len(out) : out[k] # <<>>
(* sentences end at delimiters, blank lines, the limit, and nowhere else *)
EndSeen(R, k) == InSeq(R[k], S.delim) \/ k = S.max
Reasons == \A k \in 1..Len(Want) :
  LET R == Runes(Want[k])
      E == {m \in 1..Len(R) : EndSeen(R, m)}
  IN /\ E # {} => \A m \in ((CHOOSE x \in E : \A y \in E : x <= y) + 1)..Len(R) :
                     InSeq(R[m], S.delim) \/ InSeq(R[m], S.fol) \/ (S.dlf /\ R[m] = LF)
     /\ (E = {} /\ k < Len(Want)) => S.dlf \/ (S.skip /\ \E d \in 1..Len(S.delim) : IsSpaceRune(S.delim[d]))
Terminates == <>(ph = "done")

Generate == (History /\ ph = "done") => PrintT("G|" \o ToString(<<sn, b, sch, out>>))
=============================================================================
