------------------------------- MODULE HeapMC -------------------------------
(* Design of the ownership: which blocks the library's structures hold.     *)
(* An object owns Fixed blocks, one per Gauss point (list node) and two per *)
(* yielded point; solvers borrow blocks and return them.  The model checks  *)
(* that this design meets Heap: every one of its steps is a step of Heap,   *)
(* and nothing remains when no object exists.                               *)
EXTENDS Integers, FiniteSets, TLC
CONSTANTS Objs, Ids, Fixed, MaxCalls
VARIABLES live, pts, ys, calls, delta, held, points, yielded, fresh
H == INSTANCE Heap
mvars == <<live, pts, ys, calls, delta, held, points, yielded, fresh>>
Own(o) == IF o \in live THEN Fixed + Cardinality(pts[o]) + 2 * Cardinality(ys[o]) ELSE 0
Total == LET RECURSIVE S(_)
             S(T) == IF T = {} THEN 0 ELSE LET x == CHOOSE x \in T : TRUE IN Own(x) + S(T \ {x})
         IN S(live)
D(n) == <<n, 8 * n>>
MInit == /\ live = {} /\ pts = [o \in Objs |-> {}] /\ ys = [o \in Objs |-> {}]
         /\ calls = 0 /\ delta = <<0, 0>> /\ H!HInit
\* constructing at a used name first releases (the C interface)
MNew(o) == /\ live' = live \cup {o} /\ pts' = [pts EXCEPT ![o] = {}] /\ ys' = [ys EXCEPT ![o] = {}]
           /\ delta' = D(Fixed - Own(o)) /\ H!HNew(o, 1, delta')
MSet(o, g) == /\ o \in live /\ pts' = [pts EXCEPT ![o] = @ \cup {g}] /\ UNCHANGED <<live, ys>>
              /\ delta' = D(IF g \in pts[o] THEN 0 ELSE 1) /\ H!HSet(o, g, delta')
MHom(o, Y) == /\ o \in live /\ Y \subseteq pts[o] /\ ys' = [ys EXCEPT ![o] = @ \cup Y] /\ UNCHANGED <<live, pts>>
              /\ delta' = D(2 * Cardinality(Y \ ys[o])) /\ H!HHom(o, ys[o] \cup Y, delta')
MOther(o) == o \in live /\ delta' = <<0, 0>> /\ UNCHANGED <<live, pts, ys>> /\ H!HOther(o, delta')
MDel(o) == /\ o \in live /\ live' = live \ {o} /\ UNCHANGED <<pts, ys>>
           /\ delta' = D(-Own(o)) /\ H!HDel(o, delta')
MNext == /\ calls < MaxCalls /\ calls' = calls + 1
         /\ \E o \in Objs : \/ MNew(o) \/ MDel(o) \/ MOther(o)
                            \/ \E g \in Ids : MSet(o, g)
                            \/ \E Y \in SUBSET Ids : MHom(o, Y)
MSpec == MInit /\ [][MNext]_mvars
\* every call the design offers is allowed by Heap: the amounts agree
Agree == DOMAIN held = live /\ \A o \in live : held[o] = D(Own(o)) /\ points[o] = pts[o] /\ yielded[o] = ys[o]
Empty == live = {} => held = << >>
\* and no design call is refused by Heap
Offered == calls < MaxCalls =>
   \A o \in Objs : /\ ENABLED MNew(o)
                   /\ o \in live => /\ ENABLED MDel(o)
                                    /\ \A g \in Ids : ENABLED MSet(o, g)
                                    /\ \A Y \in SUBSET pts[o] : ENABLED MHom(o, Y)
=============================================================================
