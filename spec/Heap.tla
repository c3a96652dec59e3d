-------------------------------- MODULE Heap --------------------------------
(***************************************************************************)
(* What objects may hold in memory.  held[o] is what object o acquired and *)
(* did not return, as <<blocks, bytes>>; yielded[o] the points known to    *)
(* have yielded; fresh[k] what construction number k acquires in an empty  *)
(* process.  Each action says how the amount may change.                   *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC
VARIABLES held, points, yielded, fresh
hvars == <<held, points, yielded, fresh>>
Nothing == <<0, 0>>
Plus(a, b) == <<a[1] + b[1], a[2] + b[2]>>
Grows(d) == d[1] >= 0 /\ d[2] >= 0
HInit == held = << >> /\ points = << >> /\ yielded = << >> /\ fresh = << >>
HProcess == held' = << >> /\ points' = << >> /\ yielded' = << >> /\ UNCHANGED fresh
Holds(o) == IF o \in DOMAIN held THEN held[o] ELSE Nothing
\* construction number k: an object already at o (the C interface) is released
HNew(o, k, d) ==
  LET h == Plus(Holds(o), d) IN
  /\ Grows(h)
  /\ k \in DOMAIN fresh => fresh[k] = h
  /\ fresh' = (k :> h) @@ fresh
  /\ held' = (o :> h) @@ held
  /\ points' = (o :> {}) @@ points
  /\ yielded' = (o :> {}) @@ yielded
HSet(o, g, d) ==
  /\ o \in DOMAIN held
  /\ IF g \in points[o] THEN d = Nothing ELSE Grows(d)
  /\ held' = [held EXCEPT ![o] = Plus(@, d)]
  /\ points' = [points EXCEPT ![o] = @ \cup {g}]
  /\ UNCHANGED <<yielded, fresh>>
\* ys: the points whose flag is set afterwards
HHom(o, ys, d) ==
  /\ o \in DOMAIN held
  /\ Grows(d) /\ (ys \subseteq yielded[o] => d = Nothing)
  /\ held' = [held EXCEPT ![o] = Plus(@, d)]
  /\ yielded' = [yielded EXCEPT ![o] = @ \cup ys]
  /\ UNCHANGED <<points, fresh>>
\* update, queries, records, snapshots; products, solves, additions
HOther(o, d) == o \in DOMAIN held /\ d = Nothing /\ UNCHANGED hvars
HDel(o, d) ==
  /\ o \in DOMAIN held
  /\ Plus(held[o], d) = Nothing
  /\ held' = [p \in DOMAIN held \ {o} |-> held[p]]
  /\ points' = [p \in DOMAIN points \ {o} |-> points[p]]
  /\ yielded' = [p \in DOMAIN yielded \ {o} |-> yielded[p]]
  /\ UNCHANGED fresh
=============================================================================
