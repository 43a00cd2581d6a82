----------------------------- MODULE TileTrace ------------------------------
(* Recorded results against Tile: per record the tokens of a tokenizer with   *)
(* BOS/EOS (tk) and of one that omits them (ot), same text and mode.          *)
EXTENDS Tile, TLC, Json, IOUtils

Data == JsonDeserialize(IOEnv.TRACE_FILE)
Recs == Data.recs
Texts == Data.texts

VARIABLES rid, ph, cur, why
vars == <<rid, ph, cur, why>>
R == Recs[rid]
X == Texts[R.x]

TraceInit == /\ rid \in 1..Len(Recs)
             /\ ph = (IF Recs[rid].err # "" THEN "fail" ELSE "bos")
             /\ cur = Cursor0 /\ why = ""

Reject(msg) == ph' = "done" /\ why' = msg /\ UNCHANGED <<rid, cur>>

Fail == ph = "fail" /\ Reject("the call did not return: " \o R.err)

TakeBos ==
  /\ ph = "bos"
  /\ IF cur.k <= Len(R.tk) /\ EdgeOK(R.tk[cur.k], cur, Bos)
     THEN ph' = "word" /\ cur' = AfterEdge(cur) /\ UNCHANGED <<rid, why>>
     ELSE Reject("no BOS token at the beginning")

(* up to n words in one step: the cursor after them, or where it gets stuck *)
IsWord(c) == c.k < Len(R.tk) /\ R.tk[c.k].id # BosEosId
RECURSIVE Words(_, _)
Words(c, n) ==
  IF n = 0 \/ ~IsWord(c) \/ ~WordOK(R.tk[c.k], c, X) THEN c
  ELSE Words(AfterWord(R.tk[c.k], c, X), n - 1)

TakeWord ==
  /\ ph = "word" /\ IsWord(cur)
  /\ LET c == Words(cur, IF Len(R.tk) > 5000 THEN 30 ELSE 1)
     IN IF c # cur THEN cur' = c /\ UNCHANGED <<rid, ph, why>>
        ELSE Reject("token does not lie at the cursor")

TakeEos ==
  /\ ph = "word" /\ (cur.k >= Len(R.tk) \/ R.tk[cur.k].id = BosEosId)
  /\ IF /\ cur.k = Len(R.tk)
        /\ cur.b = Len(X)
        /\ EdgeOK(R.tk[cur.k], cur, Eos)
     THEN ph' = "omit" /\ UNCHANGED <<rid, cur, why>>
     ELSE Reject("input not covered up to one EOS token at its end")

(* the omitting tokenizer: the same words, counted from 0 *)
Omit ==
  /\ ph = "omit"
  /\ LET n == Len(R.tk) - 2
     IN IF /\ Len(R.ot) = n
           /\ \A k \in 1..n : R.ot[k] = [R.tk[k + 1] EXCEPT !.ix = k - 1]
        THEN ph' = "done" /\ UNCHANGED <<rid, cur, why>>
        ELSE Reject("the omitting tokenizer returns other tokens")

TraceNext == Fail \/ TakeBos \/ TakeWord \/ TakeEos \/ Omit
TraceSpec == TraceInit /\ [][TraceNext]_vars

Verdict ==
  ph = "done" =>
    IF why = "" THEN PrintT("V|" \o ToString(rid) \o "|ok")
    ELSE PrintT("V|" \o ToString(rid) \o "|bad|C01 token=" \o ToString(cur.k) \o " byte=" \o ToString(cur.b) \o " " \o why)
=============================================================================
