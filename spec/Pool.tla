-------------------------------- MODULE Pool --------------------------------
(* Memory pools.  An object is unborn, held by one user, or lying in a pool;  *)
(* the pool may forget an object (garbage collection) at any time.            *)
EXTENDS Integers, Sequences, FiniteSets
Held(h, o) == o \in DOMAIN h
(* the state of the world is [held, lying]: held[o] = user, lying[o] = pool   *)
World0 == [held |-> <<>>, lying |-> <<>>, seen |-> {}]

Without(f, o) == [x \in DOMAIN f \ {o} |-> f[x]]
With(f, o, v) == [x \in DOMAIN f \cup {o} |-> IF x = o THEN v ELSE f[x]]

(* user u may be given object o by pool p; made is the pool whose constructor *)
(* made it                                                                    *)
MayGet(w, u, p, o, made) ==
  /\ o \notin DOMAIN w.held
  /\ IF o \in w.seen THEN o \in DOMAIN w.lying /\ w.lying[o] = p ELSE made = p
Get(w, u, p, o) == [held |-> With(w.held, o, u), lying |-> Without(w.lying, o), seen |-> w.seen \cup {o}]
MayPut(w, u, p, o) == o \in DOMAIN w.held /\ w.held[o] = u
Put(w, u, p, o) == [w EXCEPT !.held = Without(@, o), !.lying = With(@, o, p)]
(* an object made elsewhere may be brought in *)
Bring(w, u, o) == [w EXCEPT !.held = With(@, o, u), !.seen = @ \cup {o}]
Forget(w, o) == [w EXCEPT !.lying = Without(@, o)]
=============================================================================
