------------------------------- MODULE GenJ2 -------------------------------
(***************************************************************************)
(* Call sequences with exactly representable strains.  Strains are chosen  *)
(* relative to the committed plastic strain of the (first plastic)         *)
(* material: com.xp + k*d with d from a set of integer directions of       *)
(* integer norm, so loading, reloading and reversal in any direction and   *)
(* any order of calls occur.  Used with -simulate (RandomElement).         *)
(***************************************************************************)
EXTENDS MicroJ2, TLC, Json, IOUtils
VARIABLE acts
Opt == ndJsonDeserialize(IOEnv.OPTS)[1]   \* mats, p2, ids, dirs, ks, ps, depth, max, obs
OptMats == Opt.mats
OptP2 == Opt.p2
ToSet(s) == { s[i] : i \in 1..Len(s) }
gvars == <<order, pt, rows, snaps, acts>>
Last == IF acts = <<>> THEN [op |-> "New", g |-> 0] ELSE acts[Len(acts)]
Do(a) == acts' = Append(acts, a)
Base(g) == IF g \in M!Known THEN pt[g].com[1].xp ELSE Zero5
Small(x) == \A i \in Dims : x[i] <= Opt.max /\ -x[i] <= Opt.max
GInit == M!Init /\ acts = <<>>
GSet == \E g \in ToSet(Opt.ids) : \E d \in {RandomElement(ToSet(Opt.dirs))}, k \in ToSet(Opt.ks), p \in {RandomElement(ToSet(Opt.ps))} :
          LET e == [p |-> p, x |-> Add5(Base(g), Mul5(k, d))] IN
          /\ ~(Last.op = "Set" /\ Last.g = g)
          /\ ~(\E n \in {Len(acts)} : n >= 2 /\ acts[n].op = "Set" /\ acts[n - 1].op = "Set")
          /\ Small(e.x)
          /\ M!Set(g, e)
          /\ Do([op |-> "Set", g |-> g, p |-> e.p, x |-> e.x])
\* only when exact for every point (strains set before an update may not be)
Ready == order # <<>> /\ \A g \in M!Known : M!Shortcut(pt[g]) \/ J2Fits(pt[g].com, pt[g].e)
GHom == /\ Ready /\ M!Homogenize /\ Do([op |-> "Hom", g |-> 0])
GUpd == /\ order # <<>> /\ M!Update /\ Do([op |-> "Upd", g |-> 0])
\* observers, at any moment and for any identifier
GObs == /\ Opt.obs /\ Last.op # "Obs"
        /\ \E k \in {RandomElement({"Out", "Wri", "Qry"})}, g \in {RandomElement(ToSet(Opt.ids) \cup {99})} :
             Do([op |-> "Obs", k |-> k, g |-> g])
        /\ UNCHANGED <<order, pt, rows, snaps>>
GEnd == /\ Len(acts) = Opt.depth
        /\ Do([op |-> "End", g |-> 0]) /\ UNCHANGED <<order, pt, rows, snaps>>
GNext == (Len(acts) < Opt.depth /\ (GSet \/ GHom \/ GUpd \/ GObs)) \/ GEnd
GSpec == GInit /\ [][GNext]_gvars
Emit == Last.op = "End" => PrintT(<<"BEH", ToJson(acts)>>)
=============================================================================
