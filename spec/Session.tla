------------------------------ MODULE Session -------------------------------
(* Calls sharing recycled lattices.                                           *)
(*                                                                            *)
(* Every analysis takes a lattice object from the pool (or a new one), builds *)
(* it, runs the forward and the backward pass, hands out the result and frees *)
(* the object.  Slots stand for concurrent callers; their steps interleave    *)
(* freely.  A lattice holds what its steps left in it, so that the result is  *)
(* a function of the call alone only if every step finds a clean object and   *)
(* nobody else works on it.                                                   *)
(* With History on, the interleaving is part of the state and printed at the  *)
(* end for replay through the real lattice package.                           *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Quota,      \* Quota[s]: number of calls of slot s
          Calls,      \* kinds of calls
          History
Slots == 1..Len(Quota)
None == 0

VARIABLES pool,   \* free objects
          obj,    \* obj[o] = [dic, udic, list, out]
          pc,     \* pc[s] = [at, o, c]
          done,   \* done[s]: calls finished
          res,    \* results handed out: <<call, what the caller saw>>
          hist
vars == <<pool, obj, pc, done, res, hist>>

Clean == [dic |-> None, udic |-> None, list |-> <<>>, out |-> <<>>]
Idle == [at |-> "idle", o |-> None, c |-> None]
Log(s, step, c) == hist' = IF History THEN Append(hist, <<s, step, c>>) ELSE hist

(* steps: 1 New, 2 Build, 3 Forward, 4 Backward, 5 Free *)
Init == pool = {} /\ obj = <<>> /\ pc = [s \in Slots |-> Idle] /\ done = [s \in Slots |-> 0] /\ res = {} /\ hist = <<>>

New(s) ==
  /\ pc[s].at = "idle" /\ done[s] < Quota[s]
  /\ \E c \in Calls :
       /\ Log(s, 1, c)
       /\ \/ \E o \in pool :
               /\ pool' = pool \ {o}
               /\ obj' = [obj EXCEPT ![o].dic = c, ![o].udic = c]
               /\ pc' = [pc EXCEPT ![s] = [at |-> "new", o |-> o, c |-> c]]
          \/ /\ pool = {} \/ ~History
             /\ Len(obj) < Cardinality(Slots)
             /\ obj' = Append(obj, [Clean EXCEPT !.dic = c, !.udic = c])
             /\ pc' = [pc EXCEPT ![s] = [at |-> "new", o |-> Len(obj) + 1, c |-> c]]
             /\ UNCHANGED pool
  /\ UNCHANGED <<done, res>>
Build(s) ==
  /\ pc[s].at = "new"
  /\ LET o == pc[s].o IN obj' = [obj EXCEPT ![o].list = Append(@, pc[s].c)]
  /\ pc' = [pc EXCEPT ![s].at = "built"] /\ Log(s, 2, pc[s].c)
  /\ UNCHANGED <<pool, done, res>>
Forward(s) ==
  /\ pc[s].at = "built" /\ pc' = [pc EXCEPT ![s].at = "forward"] /\ Log(s, 3, pc[s].c)
  /\ UNCHANGED <<pool, obj, done, res>>
Backward(s) ==
  /\ pc[s].at = "forward"
  /\ LET o == pc[s].o IN obj' = [obj EXCEPT ![o].out = Append(@, <<obj[o].dic, obj[o].udic, obj[o].list>>)]
  /\ pc' = [pc EXCEPT ![s].at = "backward"] /\ Log(s, 4, pc[s].c)
  /\ UNCHANGED <<pool, done, res>>
Free(s) ==
  /\ pc[s].at = "backward"
  /\ LET o == pc[s].o
     IN /\ res' = res \cup {<<pc[s].c, obj[o].out>>}
        /\ obj' = [obj EXCEPT ![o] = [Clean EXCEPT !.dic = obj[o].dic]]
        /\ pool' = pool \cup {o}
  /\ pc' = [pc EXCEPT ![s] = Idle] /\ done' = [done EXCEPT ![s] = @ + 1] /\ Log(s, 5, pc[s].c)

Next == \E s \in Slots : New(s) \/ Build(s) \/ Forward(s) \/ Backward(s) \/ Free(s)
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
(* what a call must see, whatever happened before or happens meanwhile *)
Pure(c) == <<<<c, c, <<c>>>>>>
Isolated == \A r \in res : r[2] = Pure(r[1])
InProgress == \A s \in Slots : pc[s].at = "backward" => obj[pc[s].o].out = Pure(pc[s].c)
Exclusive == /\ \A s, t \in Slots : (s # t /\ pc[s].o # None) => pc[s].o # pc[t].o
             /\ \A s \in Slots : pc[s].o \notin pool
FreeIsClean == \A o \in pool : obj[o].list = <<>> /\ obj[o].out = <<>> /\ obj[o].udic = None
Finished == \A s \in Slots : done[s] = Quota[s]
Generate == (History /\ Finished) => PrintT("G|" \o ToString(hist))
=============================================================================
