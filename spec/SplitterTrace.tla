--------------------------- MODULE SplitterTrace ----------------------------
(* Recorded scans.  A record is a text with settings (0: the default ones)    *)
(* and the distinct results of reading it in various pieces.                  *)
EXTENDS Splitter, TLC, Json, IOUtils

Data == JsonDeserialize(IOEnv.TRACE_FILE)
Recs == Data.recs

VARIABLES rid, i, st, cont, ph
vars == <<rid, i, st, cont, ph>>
R == Recs[rid]
B == R.in
S == IF R.s = 0 THEN DefaultSettings ELSE Data.sets[R.s]

TraceInit == rid \in 1..Len(Recs) /\ i = 1 /\ st = Start /\ cont = <<>> /\ ph = "run"
FeedChar == /\ ph = "run" /\ i <= Len(B)
            /\ LET d == DecodeAt(B, i)
                   c == SubSeq(B, i, i + d[2] - 1)
               IN /\ st' = Feed(S, st, d[1], c)
                  /\ cont' = IF Skipped(S, d[1]) THEN cont ELSE cont \o c
                  /\ i' = i + d[2]
            /\ UNCHANGED <<rid, ph>>
Finish == ph = "run" /\ i > Len(B) /\ st' = Close(st) /\ ph' = "done" /\ UNCHANGED <<rid, i, cont>>
TraceNext == FeedChar \/ Finish
TraceSpec == TraceInit /\ [][TraceNext]_vars

Why ==
  UNION {LET o == R.outs[k]
         IN (IF o.err # "" THEN {"C13 failed: " \o o.err} ELSE {})
            \cup (IF o.mod THEN {"C13 the reader's data were changed"} ELSE {})
            \cup (IF \E x \in 1..Len(o.out) : o.out[x] = <<>> THEN {"C13 empty sentence"} ELSE {})
            \cup (IF Flatten(o.out) # cont THEN {"C13 content differs"} ELSE {})
            \cup (IF o.out # st.out THEN {"C14 other sentences"} ELSE {})
         : k \in 1..Len(R.outs)}
  \cup (IF Len(R.outs) > 1 THEN {"C13 depends on the pieces"} ELSE {})
Verdict ==
  ph = "done" =>
    IF Why = {} THEN PrintT("V|" \o ToString(rid) \o "|ok")
    ELSE \A x \in Why : PrintT("V|" \o ToString(rid) \o "|bad|" \o x)
=============================================================================
