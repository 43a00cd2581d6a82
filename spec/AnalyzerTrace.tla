--------------------------- MODULE AnalyzerTrace ----------------------------
(* Validation of recorded analyses against Analyzer.                          *)
(*                                                                            *)
(* Each record holds an input, the dictionary (number) it was analysed with   *)
(* and what the real tokenizer returned in the three modes.  Every record is  *)
(* one behaviour: the machine of Analyzer scans the text and then offers the  *)
(* candidates character by character while the recorded tokens are walked     *)
(* along; a token that is no candidate, a path that is not a cheapest one, or *)
(* an Extended result that is not the split Search result is a reason for     *)
(* rejection, tagged with the property it breaks.                             *)
EXTENDS Analyzer, TLC, Json, IOUtils

Data == JsonDeserialize(IOEnv.TRACE_FILE)
Recs == Data.recs
Dicts == Data.dicts

VARIABLES rid,   \* record
          ph,    \* "scan", "walk", "done"
          T,     \* scanned text
          i,     \* next character
          q,     \* run of the next character
          w1, w2,\* walks along the Normal and the Search result
          why    \* reasons for rejection

vars == <<rid, ph, T, i, q, w1, w2, why>>

D == Dicts[Recs[rid].d]
B == Recs[rid].in

(* the words of a recorded result: tokens without BOS and EOS *)
IsEdge(t) == t.id = BosEos
Walk0(n) == [P |-> BosPaths(n), k |-> 1, at |-> 1, acc |-> 0, r |-> 0, u |-> FALSE, ok |-> TRUE]

(* tokens of mode m without BOS/EOS are given as Recs[rid].w1 etc. *)
TraceInit ==
  /\ rid \in 1..Len(Recs)
  /\ ph = (IF Recs[rid].err = "" THEN "scan" ELSE "done") /\ T = EmptyText /\ i = 1 /\ q = 1
  /\ w1 = <<>> /\ w2 = <<>>
  /\ why = (IF Recs[rid].err = "" THEN {} ELSE {<<"C0*", 1, 0, "the call failed: " \o Recs[rid].err>>})

(* up to k characters in one step *)
RECURSIVE ScanSome(_, _)
ScanSome(t, k) == IF k = 0 \/ ScanDone(B, t) THEN t ELSE ScanSome(ScanOne(D, B, t), k - 1)
Scan ==
  /\ ph = "scan"
  /\ IF ScanDone(B, T)
     THEN /\ T' = ScanEnd(T)
          /\ ph' = "walk"
          /\ w1' = Walk0(Len(T.rn)) /\ w2' = Walk0(Len(T.rn))
     ELSE /\ T' = ScanSome(T, 64)
          /\ UNCHANGED <<ph, w1, w2>>
  /\ UNCHANGED <<rid, i, q, why>>

(* the recorded surface starts at byte offset o of the input *)
SurfaceAt(t, o) == IF Len(t.sf) = 0 THEN FALSE ELSE OccursAt(B, o + 1, t.sf)

(* candidates a recorded token is consistent with *)
Fits(C, t) == {c \in C : /\ c.cl = t.cl /\ c.id = t.id
                         /\ c.e > 0 /\ T.off[c.e] = T.off[i] + Len(t.sf)}

ClassTag(t, um) == IF um \/ t.cl = USER THEN "C04" ELSE "C03"

(* walk a result one character on; toks are its tokens, C the candidates, um  *)
(* whether a user entry matches here                                          *)
Step(w, toks, mode, C, um) ==
  LET P == ExtendPaths(D, T, mode, w.P, i, C)
      here == w.ok /\ w.at = i
  IN IF ~here THEN [w EXCEPT !.P = P]
     ELSE IF w.k > Len(toks) \/ ~SurfaceAt(toks[w.k], T.off[i])
     THEN [w EXCEPT !.P = P, !.ok = FALSE]
     ELSE LET F == Fits(C, toks[w.k])
          IN IF F = {} THEN [w EXCEPT !.P = P, !.ok = FALSE]
             ELSE LET c == CHOOSE x \in F : TRUE
                  IN [w EXCEPT !.P = P, !.k = w.k + 1, !.at = c.e,
                        !.acc = w.acc + Link(D, w.r, w.u, c) + c.w
                                + (IF mode = NormalMode THEN 0 ELSE Penalty(T, i, c.e)),
                        !.r = c.r, !.u = (c.cl = USER)]

StepWhy(w, w_, toks, um, mode) ==
  IF w.ok /\ ~w_.ok
  THEN (IF w.k > Len(toks) \/ ~SurfaceAt(toks[w.k], T.off[i])
        THEN {<<"C02", mode, i, "the tokens are no segmentation of the input">>}
        ELSE {<<ClassTag(toks[w.k], um), mode, i, "token is not justified">>})
  ELSE {}

Extend ==
  /\ ph = "walk" /\ i <= Len(T.rn)
  /\ LET q_ == RunIndex(T, q, i)
         C  == Candidates(D, B, T, i, T.brk[q_])
         um == UserMatches(D, B, T, i) # {}
         a1 == Step(w1, Recs[rid].w1, NormalMode, C, um)
         a2 == Step(w2, Recs[rid].w2, SearchMode, C, um)
     IN /\ q' = q_
        /\ w1' = a1 /\ w2' = a2
        /\ why' = why \cup StepWhy(w1, a1, Recs[rid].w1, um, 1)
                      \cup StepWhy(w2, a2, Recs[rid].w2, um, 2)
  /\ i' = i + 1
  /\ UNCHANGED <<rid, ph, T>>

(* Extended: the Search result with unknown words split into characters *)
RECURSIVE SplitChars(_, _, _, _)
SplitChars(t, o, s, acc) ==      \* o: byte index in sf, s: character index
  IF o > Len(t.sf) THEN acc
  ELSE LET z == DecodeAt(t.sf, o)[2]
       IN SplitChars(t, o + z, s + 1,
            Append(acc, [cl |-> DUMMY, id |-> t.id, ps |-> t.ps + o - 1, st |-> s, en |-> s + 1,
                         sf |-> SubSeq(t.sf, o, o + z - 1)]))
RECURSIVE Expand(_, _, _)
Expand(toks, k, acc) ==
  IF k > Len(toks) THEN acc
  ELSE LET t == toks[k]
       IN Expand(toks, k + 1,
            acc \o (IF t.cl = UNKNOWN THEN SplitChars(t, 1, t.st, <<>>)
                    ELSE <<[cl |-> t.cl, id |-> t.id, ps |-> t.ps, st |-> t.st, en |-> t.en, sf |-> t.sf]>>))
Plain(toks) == [k \in 1..Len(toks) |->
  [cl |-> toks[k].cl, id |-> toks[k].id, ps |-> toks[k].ps, st |-> toks[k].st,
   en |-> toks[k].en, sf |-> toks[k].sf]]
ExtendedOK == Plain(Recs[rid].w3) = Expand(Recs[rid].w2, 1, <<>>)

FinishWhy(w, toks, mode, tag) ==
  IF ~w.ok THEN {}
  ELSE IF w.at # Len(T.rn) + 1 \/ w.k # Len(toks) + 1
       THEN {<<tag, mode, i, "the tokens are no segmentation of the input">>}
       ELSE LET tot == w.acc + Link(D, w.r, w.u, EOSCand(i))
                min == MinCost(D, w.P, Len(T.rn))
            IN IF tot = min THEN {}
               ELSE {<<tag, mode, tot, "cost is not minimal">>}
                    \cup (IF D.hasu THEN {<<"C04", mode, tot, "cost is not minimal">>} ELSE {})

Finish ==
  /\ ph = "walk" /\ i > Len(T.rn)
  /\ ph' = "done"
  /\ why' = why \cup FinishWhy(w1, Recs[rid].w1, 1, "C02") \cup FinishWhy(w2, Recs[rid].w2, 2, "C05")
                \cup (IF ExtendedOK THEN {} ELSE {<<"C05", 3, 0, "Extended is not the split Search result">>})
  /\ UNCHANGED <<rid, T, i, q, w1, w2>>

TraceNext == Scan \/ Extend \/ Finish
TraceSpec == TraceInit /\ [][TraceNext]_vars

-----------------------------------------------------------------------------
(* verdicts, printed once per record *)
Reason(x) == x[1] \o " mode=" \o ToString(x[2]) \o " at=" \o ToString(x[3]) \o " " \o x[4]
Verdict ==
  ph = "done" =>
    IF why = {} THEN PrintT("V|" \o ToString(rid) \o "|ok")
    ELSE \A x \in why : PrintT("V|" \o ToString(rid) \o "|bad|" \o Reason(x))
=============================================================================
