----------------------------- MODULE TokenView ------------------------------
(* What a token says about itself, given its dictionary entry.                *)
(* An entry is [pos, cont : Seq(string), meta : [start, hier, itype, iform,   *)
(* base, read, pron] (-1: not designated), utok, uyomi : Seq(string)]; pos is *)
(* the part of speech of a KNOWN or (as one string) USER entry.               *)
EXTENDS Integers, Sequences

DUMMY == 0   KNOWN == 1   UNKNOWN == 2   USER == 3
ClassName(c) == CASE c = DUMMY -> "DUMMY" [] c = KNOWN -> "KNOWN" [] c = UNKNOWN -> "UNKNOWN" [] c = USER -> "USER"

RECURSIVE Join(_, _)
Join(s, sep) == IF s = <<>> THEN "" ELSE IF Len(s) = 1 THEN s[1] ELSE s[1] \o sep \o Join(Tail(s), sep)

Features(c, x) ==
  CASE c = KNOWN   -> x.pos \o x.cont
    [] c = UNKNOWN -> x.cont
    [] c = USER    -> x.pos \o <<Join(x.utok, "/"), Join(x.uyomi, "/")>>
    [] OTHER       -> <<>>

(* <<present, value>> *)
At(f, i) == IF i >= 0 /\ i < Len(f) THEN <<TRUE, f[i + 1]>> ELSE <<FALSE, "">>

Pos(c, x) ==
  CASE c \in {KNOWN, USER} -> x.pos
    [] c = UNKNOWN ->
         LET s == IF x.meta.start >= 0 THEN x.meta.start ELSE 0
             e == IF x.meta.hier >= 0 THEN s + x.meta.hier ELSE 1
         IN IF s >= e \/ e > Len(x.cont) THEN <<>> ELSE SubSeq(x.cont, s + 1, e)
    [] OTHER -> <<>>

Pick(c, x, k) == IF c \in {KNOWN, UNKNOWN} /\ k >= 0 THEN At(Features(c, x), k) ELSE <<FALSE, "">>

(* everything that can be observed of a token t = [cl, id, st, en, sf] *)
View(t, x, range) ==
  LET c == t.cl  f == Features(c, x)
  IN [features |-> f,
      at       |-> [k \in 1..Len(range) |-> At(f, range[k])],
      pos      |-> Pos(c, x),
      itype    |-> Pick(c, x, x.meta.itype),
      iform    |-> Pick(c, x, x.meta.iform),
      base     |-> Pick(c, x, x.meta.base),
      reading  |-> Pick(c, x, x.meta.read),
      pron     |-> Pick(c, x, x.meta.pron),
      extra    |-> IF c = USER THEN <<x.utok, x.uyomi>> ELSE <<>>,
      class    |-> ClassName(c),
      data     |-> [id |-> t.id, start |-> t.st, end |-> t.en, surface |-> t.sf, class |-> ClassName(c),
                    pos |-> Pos(c, x), base |-> Pick(c, x, x.meta.base)[2], reading |-> Pick(c, x, x.meta.read)[2],
                    pron |-> Pick(c, x, x.meta.pron)[2], features |-> f]]
=============================================================================
