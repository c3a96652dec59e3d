------------------------------- MODULE GenSym -------------------------------
(* Behaviours of Micropp to be replayed into the library, printed as JSON.  *)
(* Exhaustive search prints every call sequence of length Depth over the    *)
(* given identifiers, strains and kinds of calls; -simulate samples them.   *)
EXTENDS MicroSym, TLC, Json
CONSTANTS Ids, NStrains, Depth, Observers, Unknown
VARIABLE acts
gvars == <<order, pt, rows, snaps, acts>>
Last == IF acts = <<>> THEN [op |-> "New"] ELSE acts[Len(acts)]
Do(a) == acts' = Append(acts, a)
GInit == M!Init /\ acts = <<>>
GSet == \E g \in Ids, e \in 1..NStrains :
          /\ ~(Last.op = "Set" /\ Last.g = g)          \* would only be overwritten
          /\ ~(g \in M!Known /\ pt[g].e = e)           \* no change
          /\ ~(Last.op = "Set" /\ Last.g > g /\ g \in M!Known)   \* commuting sets: one order
          /\ M!Set(g, e) /\ Do([op |-> "Set", g |-> g, e |-> e])
GHom == /\ order # <<>> /\ M!Homogenize /\ Do([op |-> "Hom"])
GUpd == /\ order # <<>> /\ M!Update /\ Do([op |-> "Upd"])
GOut == /\ Observers
        /\ \E g \in Ids \cup Unknown : M!Output(g, 1) /\ Do([op |-> "Out", g |-> g, ts |-> Len(acts)])
GWri == Observers /\ M!Write /\ Do([op |-> "Wri"])
GQry == /\ Observers
        /\ \E g \in Ids \cup Unknown : M!Query(g) /\ Do([op |-> "Qry", g |-> g])
GEnd == /\ Len(acts) = Depth
        /\ Do([op |-> "End"]) /\ UNCHANGED <<order, pt, rows, snaps>>
GNext == (Len(acts) < Depth /\ (GSet \/ GHom \/ GUpd \/ GOut \/ GWri \/ GQry)) \/ GEnd
GSpec == GInit /\ [][GNext]_gvars
Emit == Last.op = "End" => PrintT(<<"BEH", ToJson(acts)>>)
=============================================================================
