------------------------------- MODULE Views --------------------------------
(* Tokenizers, their options and the ways of analysing a text.                *)
(*                                                                            *)
(* Creating a tokenizer is a small machine: the options are applied one after *)
(* the other to the configuration [ok, omit, user]; a failing option ends it. *)
(* Every entry point is a view of one function, the analysis Analyze(mode) of *)
(* the same dictionaries without options.                                     *)
EXTENDS Integers, Sequences
NormalMode == 1
BosEos == -1

(* options: "nop", "omit", "user1", "user2", "usernil", "fail" *)
Config0(sys) == [ok |-> sys, omit |-> FALSE, user |-> 0]
Apply(c, o) ==
  IF ~c.ok THEN c
  ELSE CASE o = "nop"     -> c
         [] o = "omit"    -> [c EXCEPT !.omit = TRUE]
         [] o = "user1"   -> [c EXCEPT !.user = 1]
         [] o = "user2"   -> [c EXCEPT !.user = 2]
         [] o = "usernil" -> [c EXCEPT !.ok = FALSE]
         [] o = "fail"    -> [c EXCEPT !.ok = FALSE]
RECURSIVE Configured(_, _)
Configured(c, opts) == IF opts = <<>> THEN c ELSE Configured(Apply(c, Head(opts)), Tail(opts))

EffMode(m) == IF m \in 1..3 THEN m ELSE NormalMode

(* removing BOS and EOS: the others keep their order and are counted anew *)
IsWord(t) == t.id # BosEos
WordsOf(ts) == SelectSeq(ts, IsWord)
Renumber(ts) == [k \in 1..Len(ts) |-> [ts[k] EXCEPT !.ix = k - 1]]
View(canon, omit, mode) ==
  LET ts == canon[EffMode(mode)] IN IF omit THEN Renumber(WordsOf(ts)) ELSE ts

(* what a way of analysing returns: tokens, or strings for "wakati" *)
ModeOf(kind, mode) == IF kind \in {"tokenize", "dot", "wakati"} THEN NormalMode ELSE mode
TokensOf(canon, c, kind, mode) == View(canon, c.omit, ModeOf(kind, mode))
Surfaces(canon) == LET ws == WordsOf(canon[NormalMode]) IN [k \in 1..Len(ws) |-> ws[k].sf]
=============================================================================
