------------------------------ MODULE StreamMC ------------------------------
(* A command between a writer that may fall silent at any time and a reader.  *)
(* With History every way of cutting the text into up to MaxCuts pieces is    *)
(* printed.                                                                   *)
EXTENDS Stream, TLC
CONSTANTS MaxLen, MaxCuts, History

A == <<97>>  NL == <<10>>  CRNL == <<13, 10>>  MARU == <<227, 128, 130>>  KAGI == <<227, 128, 141>>  BAD == <<227>>
Chars == {A, NL, CRNL, MARU, KAGI, BAD}
RECURSIVE Texts(_, _)
Texts(C, n) == IF n = 0 THEN {<<>>} ELSE LET X == Texts(C, n - 1) IN X \cup {c \o t : c \in C, t \in X}

VARIABLES cmd, b, fed, eof, printed, sch
vars == <<cmd, b, fed, eof, printed, sch>>
All == Pieces(cmd, FALSE, b)
Seen == SubSeq(b, 1, fed)
Due == IF eof THEN All ELSE Determined(cmd, FALSE, Seen)

Init == /\ cmd \in {"tokenize", "sentence"} /\ b \in Texts(Chars, MaxLen)
        /\ fed = 0 /\ eof = FALSE /\ printed = <<>> /\ sch = <<>>
(* the writer *)
Write == /\ ~eof
         /\ \E k \in 1..(Len(b) - fed) :
              /\ (History /\ Len(sch) = MaxCuts - 1 => fed + k = Len(b))
              /\ fed' = fed + k /\ sch' = IF History THEN Append(sch, fed + k) ELSE sch
         /\ UNCHANGED <<cmd, b, eof, printed>>
CloseInput == /\ ~eof /\ fed = Len(b) /\ eof' = TRUE /\ UNCHANGED <<cmd, b, fed, printed, sch>>
(* the command *)
PrintNext == /\ Len(printed) < Len(Due) /\ printed' = Append(printed, Due[Len(printed) + 1])
         /\ UNCHANGED <<cmd, b, fed, eof, sch>>
Next == Write \/ CloseInput \/ PrintNext
Spec == Init /\ [][Next]_vars /\ WF_vars(PrintNext)

Pre(x, y) == Len(x) <= Len(y) /\ SubSeq(y, 1, Len(x)) = x
(* what is printed never has to be taken back, and is everything in the end *)
Sound == Pre(Due, All) /\ Pre(printed, All)
(* nothing that is determined is withheld: texts that go on differently       *)
(* differ in the very next piece                                              *)
More == Texts(Chars \cup {<<128, 141>>, <<141>>, <<128>>}, 2)
Eager == ~eof => LET n == Len(Due)
                     C == {Pieces(cmd, FALSE, Seen \o t) : t \in More}
                 IN ~ \E p \in {IF Len(c) > n THEN <<c[n + 1]>> ELSE <<>> : c \in C} :
                        p # <<>> /\ \A c \in C : Len(c) > n /\ c[n + 1] = p[1]
Prompt == \A n \in 0..(3 * MaxLen) :
            (fed = n) ~> (n <= Len(b) /\ Pre(Determined(cmd, FALSE, SubSeq(b, 1, n)), printed))
Finishes == eof ~> (printed = All)

Generate == (History /\ eof /\ printed = All) => PrintT("G|" \o ToString(<<cmd, b, sch>>))
=============================================================================
