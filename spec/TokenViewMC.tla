---------------------------- MODULE TokenViewMC -----------------------------
(* All small entries under all small designations: first the designations are *)
(* chosen (m), then the class and the lengths of the entry (c, np, nc).  The  *)
(* designations are printed; the code is asked about all entries under each.  *)
EXTENDS TokenView, TLC, FiniteSets
CONSTANTS Max, MaxPos, MaxCont
VARIABLES m, c, np, nc
vars == <<m, c, np, nc>>
Keys == <<"itype", "iform", "base", "read", "pron">>
(* the k-th key designates j + k, wrapped around at Max; -1 for none *)
Des(j, k) == ((j + k + 1) % (Max + 2)) - 1
Meta(s, h, j) == [start |-> s, hier |-> h, itype |-> Des(j, 0), iform |-> Des(j, 1), base |-> Des(j, 2), read |-> Des(j, 3), pron |-> Des(j, 4)]
Init == /\ m \in {Meta(s, h, j) : s \in -1..Max, h \in -1..Max, j \in -1..Max}
        /\ c = -1 /\ np = 0 /\ nc = 0
Next == /\ c = -1 /\ c' \in {DUMMY, KNOWN, UNKNOWN, USER} /\ np' \in 0..MaxPos /\ nc' \in 0..MaxCont /\ UNCHANGED m
Spec == Init /\ [][Next]_vars
F(p, n) == [i \in 1..n |-> p \o ToString(i)]
X == [pos |-> IF c = USER THEN <<"p">> ELSE IF c = KNOWN THEN F("p", np) ELSE <<>>, cont |-> F("c", nc),
      meta |-> IF c \in {KNOWN, UNKNOWN} THEN m ELSE Meta(-1, -1, -1), utok |-> F("t", nc), uyomi |-> F("y", nc)]
V == View([cl |-> c, id |-> 1, st |-> 0, en |-> 1, sf |-> "s"], X, <<-1, 0, 1, 2, 3, 4, 5, 6>>)
(* the views of a token agree with each other *)
Agree == c >= 0 =>
  LET v == V
      f == v.features
      Values == {f[i] : i \in 1..Len(f)}
  IN /\ \A i \in 1..8 : v.at[i][1] = (i \in 2..(Len(f) + 1)) /\ (v.at[i][1] => v.at[i][2] = f[i - 1])
     /\ \A o \in {v.itype, v.iform, v.base, v.reading, v.pron} : IF o[1] THEN o[2] \in Values ELSE o[2] = ""
     /\ \E k \in 0..Len(f) : k + Len(v.pos) <= Len(f) /\ v.pos = SubSeq(f, k + 1, k + Len(v.pos))
     /\ (c \in {KNOWN, USER} => v.pos = SubSeq(f, 1, Len(v.pos)))
     /\ (c = DUMMY => f = <<>> /\ v.pos = <<>>)
     /\ (c # USER) = (v.extra = <<>>)
     /\ v.data.features = f /\ v.data.pos = v.pos /\ v.data.class = v.class
Generate == c = -1 => PrintT("G|" \o ToString(<<m.start, m.hier, m.itype, m.iform, m.base, m.read, m.pron>>))
=============================================================================
