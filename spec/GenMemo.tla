------------------------------ MODULE GenMemo -------------------------------
(* Programs using several objects at once, printed as JSON: objects are     *)
(* constructed, used, destroyed and constructed again in any order.         *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Objs, NCells, Ids, NStrains, Depth, Unknown
VARIABLES acts, live     \* object -> set of known identifiers ({-100} if absent)
gvars == <<acts, live>>
Dead == {-100}
Do(a) == acts' = Append(acts, a)
GInit == acts = << >> /\ live = [o \in Objs |-> Dead]
GNew(o) == /\ \E k \in 1..NCells : Do([op |-> "New", o |-> o, k |-> k])
           /\ live[o] # {}
           /\ live' = [live EXCEPT ![o] = {}]
GDel(o) == live[o] \notin {Dead, {}} /\ Do([op |-> "Del", o |-> o]) /\ live' = [live EXCEPT ![o] = Dead]
Up(o) == live[o] # Dead
GSet(o) == /\ Up(o)
           /\ \E g \in Ids, e \in 1..NStrains :
                Do([op |-> "Set", o |-> o, g |-> g, e |-> e]) /\ live' = [live EXCEPT ![o] = @ \cup {g}]
GPlain(o) == /\ Up(o) /\ live[o] # {}
             /\ \E op \in {"Hom", "Upd", "Wri"} : Do([op |-> op, o |-> o])
             /\ UNCHANGED live
GLook(o) == /\ Up(o)
            /\ \E op \in {"Out", "Qry"}, g \in Ids \cup Unknown :
                 Do([op |-> op, o |-> o, g |-> g, ts |-> Len(acts)])
            /\ UNCHANGED live
\* homogenizations and updates are what matters: weigh them up
Kinds == <<"new", "del", "set", "set", "set", "plain", "plain", "plain", "plain", "look">>
GAct == \E o \in {RandomElement(Objs)}, k \in {Kinds[RandomElement(1..Len(Kinds))]} :
          IF ~Up(o) THEN GNew(o)
          ELSE CASE k = "new" -> GNew(o) \/ (live[o] = {} /\ GSet(o))
                 [] k = "del" -> GDel(o) \/ (live[o] = {} /\ GSet(o))
                 [] k = "set" -> GSet(o)
                 [] k = "plain" -> GPlain(o) \/ (live[o] = {} /\ GSet(o))
                 [] k = "look" -> GLook(o)
GEnd == Len(acts) = Depth /\ Do([op |-> "End"]) /\ UNCHANGED live
GNext == (Len(acts) < Depth /\ GAct) \/ GEnd
GSpec == GInit /\ [][GNext]_gvars
Emit == (acts # << >> /\ acts[Len(acts)].op = "End") => PrintT(<<"BEH", ToJson(acts)>>)
=============================================================================
