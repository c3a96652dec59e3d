----------------------------- MODULE GenEllHeap -----------------------------
(* Programs using several matrices at once, printed as JSON.                *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS Objs, NGrids, Depth
VARIABLES acts, live      \* matrix -> grid number (0: none)
Do(a) == acts' = Append(acts, a)
GInit == acts = << >> /\ live = [o \in Objs |-> 0]
Kinds == <<"Free", "Zero", "Add", "Add", "Fill", "Fill", "Bc", "Mvp", "cg2", "cgs", "jac", "cgs">>
GAct == \E o \in {RandomElement(Objs)}, k \in {RandomElement(1..NGrids)}, j \in {RandomElement(1..Len(Kinds))} :
          IF live[o] = 0 THEN Do([op |-> "Init", o |-> o, k |-> k]) /\ live' = [live EXCEPT ![o] = k]
          ELSE /\ Do([op |-> Kinds[j], o |-> o, k |-> live[o]])
               /\ live' = IF Kinds[j] = "Free" THEN [live EXCEPT ![o] = 0] ELSE live
GEnd == Len(acts) = Depth /\ Do([op |-> "End"]) /\ UNCHANGED live
GNext == (Len(acts) < Depth /\ GAct) \/ GEnd
GSpec == GInit /\ [][GNext]_<<acts, live>>
Emit == (acts # << >> /\ acts[Len(acts)].op = "End") => PrintT(<<"BEH", ToJson(acts)>>)
=============================================================================
