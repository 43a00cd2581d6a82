-------------------------------- MODULE Utf8 --------------------------------
(* Byte strings and characters.  A text is a sequence of bytes; its          *)
(* characters are found by decoding from the left, where a byte that does not *)
(* begin a well-formed UTF-8 sequence is a character of its own (U+FFFD of    *)
(* size 1).  This is the notion of "character" every offset in the system is  *)
(* based on.                                                                  *)
EXTENDS Integers, Sequences

RuneError == 65533

(* the byte at index i (1-based), or -1 beyond the end *)
LOCAL At(b, i) == IF i <= Len(b) THEN b[i] ELSE -1
LOCAL Cont(x) == x >= 128 /\ x <= 191

(* <<rune, size>> of the character that starts at index i *)
DecodeAt(b, i) ==
  LET b0 == b[i]  b1 == At(b, i + 1)  b2 == At(b, i + 2)  b3 == At(b, i + 3)
      bad == <<RuneError, 1>>
  IN CASE b0 < 128 -> <<b0, 1>>
       [] b0 >= 194 /\ b0 <= 223 ->
            IF Cont(b1) THEN <<(b0 - 192) * 64 + (b1 - 128), 2>> ELSE bad
       [] b0 >= 224 /\ b0 <= 239 ->
            IF /\ b1 >= (IF b0 = 224 THEN 160 ELSE 128)
               /\ b1 <= (IF b0 = 237 THEN 159 ELSE 191)
               /\ Cont(b2)
            THEN <<(b0 - 224) * 4096 + (b1 - 128) * 64 + (b2 - 128), 3>> ELSE bad
       [] b0 >= 240 /\ b0 <= 244 ->
            IF /\ b1 >= (IF b0 = 240 THEN 144 ELSE 128)
               /\ b1 <= (IF b0 = 244 THEN 143 ELSE 191)
               /\ Cont(b2) /\ Cont(b3)
            THEN <<(b0 - 240) * 262144 + (b1 - 128) * 4096 + (b2 - 128) * 64 + (b3 - 128), 4>>
            ELSE bad
       [] OTHER -> bad

(* could the bytes from index i on be the beginning of a longer well-formed   *)
(* character, so that more bytes have to be seen before it can be decoded?    *)
Incomplete(b, i) ==
  LET n == Len(b) - i + 1
      b0 == b[i]  b1 == At(b, i + 1)  b2 == At(b, i + 2)
  IN \/ b0 >= 194 /\ b0 <= 223 /\ n = 1
     \/ b0 >= 224 /\ b0 <= 239 /\ n < 3
        /\ (n >= 2 => b1 >= (IF b0 = 224 THEN 160 ELSE 128) /\ b1 <= (IF b0 = 237 THEN 159 ELSE 191))
     \/ b0 >= 240 /\ b0 <= 244 /\ n < 4
        /\ (n >= 2 => b1 >= (IF b0 = 240 THEN 144 ELSE 128) /\ b1 <= (IF b0 = 244 THEN 143 ELSE 191))
        /\ (n >= 3 => Cont(b2))

(* number of characters between two indices of b (i inclusive, j exclusive),  *)
(* or -1 if j is not a character boundary                                     *)
RECURSIVE CountFrom(_, _, _, _)
CountFrom(b, i, j, acc) ==
  IF i = j THEN acc
  ELSE IF i > j THEN -1
  ELSE CountFrom(b, i + DecodeAt(b, i)[2], j, acc + 1)
CountRunes(b, i, j) == CountFrom(b, i, j, 0)

(* all characters of a (short) byte string *)
RECURSIVE RunesFrom(_, _)
RunesFrom(b, i) == IF i > Len(b) THEN <<>>
                   ELSE LET d == DecodeAt(b, i) IN <<d[1]>> \o RunesFrom(b, i + d[2])
Runes(b) == RunesFrom(b, 1)

(* does byte string s occur in b at index i? *)
OccursAt(b, i, s) ==
  /\ Len(s) > 0
  /\ i + Len(s) - 1 <= Len(b)
  /\ b[i] = s[1]
  /\ \A k \in 2..Len(s) : b[i + k - 1] = s[k]

IsSpaceRune(r) == \/ (r >= 9 /\ r <= 13) \/ r = 32 \/ r = 133 \/ r = 160 \/ r = 5760
                  \/ (r >= 8192 /\ r <= 8202) \/ r = 8232 \/ r = 8233 \/ r = 8239
                  \/ r = 8287 \/ r = 12288

(* Unicode property Ideographic: what the search heuristic calls kanji *)
Ideographic(r) ==
  \/ (r >= 19968 /\ r <= 40959)
  \/ r \in {12294, 12295} \/ (r >= 12321 /\ r <= 12329) \/ (r >= 12344 /\ r <= 12346)
  \/ (r >= 13312 /\ r <= 19903)
  \/ (r >= 63744 /\ r <= 64109) \/ (r >= 64112 /\ r <= 64217)
  \/ r = 94180 \/ (r >= 94194 /\ r <= 94198) \/ (r >= 94208 /\ r <= 101589)
  \/ (r >= 101631 /\ r <= 101662) \/ (r >= 101760 /\ r <= 101874)
  \/ (r >= 110960 /\ r <= 111355)
  \/ (r >= 131072 /\ r <= 173791) \/ (r >= 173824 /\ r <= 178205)
  \/ (r >= 178208 /\ r <= 183981) \/ (r >= 183984 /\ r <= 191456)
  \/ (r >= 191472 /\ r <= 192093) \/ (r >= 194560 /\ r <= 195101)
  \/ (r >= 196608 /\ r <= 201546) \/ (r >= 201552 /\ r <= 210041)
=============================================================================
