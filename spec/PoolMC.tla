------------------------------- MODULE PoolMC -------------------------------
(* Users working on pools; the schedules (who does what on which pool, which  *)
(* of the objects held is put back) are generated for replay on the real one. *)
EXTENDS Pool, TLC
CONSTANTS Users, Pools, MaxObj, MaxLen, History
VARIABLES w, hist, made
vars == <<w, hist, made>>
Init == w = World0 /\ hist = <<>> /\ made = <<>>
Step == Len(hist) < MaxLen
Log(u, op, p) == hist' = Append(hist, <<u, op, p>>)
(* op 1: get, 2: put what was held longest, 3: collect garbage *)
Obj == 1..MaxObj
NewId == Cardinality(w.seen) + 1
DoGet == Step /\ \E u \in Users, p \in Pools, o \in Obj :
  /\ o \in w.seen \/ o = NewId
  /\ LET mk == IF o \in w.seen THEN made[o] ELSE p
     IN MayGet(w, u, p, o, mk) /\ w' = Get(w, u, p, o) /\ made' = (IF o \in w.seen THEN made ELSE Append(made, p))
  /\ (History => ((\E x \in DOMAIN w.lying : w.lying[x] = p) => o \in w.seen))
  /\ Log(u, 1, p)
DoPut == Step /\ \E u \in Users, o \in DOMAIN w.held :
  /\ MayPut(w, u, made[o], o) /\ (History => \A x \in DOMAIN w.held : (w.held[x] = u /\ made[x] = made[o]) => x >= o)
  /\ w' = Put(w, u, made[o], o) /\ Log(u, 2, made[o]) /\ UNCHANGED made
DoForget == Step /\ \E o \in DOMAIN w.lying : w' = Forget(w, o) /\ Log(0, 3, w.lying[o]) /\ UNCHANGED made
Next == DoGet \/ DoPut \/ (~History /\ DoForget)
Spec == Init /\ [][Next]_vars
OneOwner == DOMAIN w.held \cap DOMAIN w.lying = {}
SamePool == \A o \in DOMAIN w.lying : w.lying[o] = made[o]
Known == DOMAIN w.held \cup DOMAIN w.lying \subseteq w.seen
Generate == (History /\ Len(hist) = MaxLen) => PrintT("G|" \o ToString(hist))
View == IF History THEN <<w, hist, made>> ELSE <<w, made, Len(hist)>>
=============================================================================
