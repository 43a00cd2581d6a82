-------------------------------- MODULE Demo --------------------------------
(* The demo page with a lattice: a handler gives the graph to an external     *)
(* renderer through a pipe, waits for it with a time limit and makes a page.  *)
(* The renderer is somebody else's program: it may do anything.               *)
EXTENDS Integers, Sequences, FiniteSets, TLC

(* what a renderer does, one thing after the other, and how it ends *)
Acts == {"readsome", "readall", "svg", "garbage", "big", "noise", "closein", "closeout", "wait", "fork"}
(* "fork" leaves a child behind that holds all that is open now, for ever *)
Ends == {"exit0", "exit1", "signal", "hang"}

First(p, a) == LET K == {i \in 1..Len(p) : p[i] = a} IN IF K = {} THEN Len(p) + 1 ELSE CHOOSE i \in K : \A j \in K : i <= j
Has(p, a) == First(p, a) <= Len(p)
Drained(p) == Has(p, "readall") /\ First(p, "readall") < First(p, "closein")
Drawn(p) == Has(p, "svg") /\ First(p, "svg") < First(p, "closeout")

(* what the page has to show *)
MustFail(avail, p, e) == ~avail \/ e # "exit0"
MustShow(avail, p, e) == avail /\ e = "exit0" /\ Drained(p) /\ Drawn(p) /\ ~Has(p, "fork")
=============================================================================
