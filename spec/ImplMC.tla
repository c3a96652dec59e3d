------------------------------- MODULE ImplMC -------------------------------
(* Refinement of Micropp by Impl, for a bar of one hardening material: a    *)
(* state is [x: plastic strain, a: hardening], strains are integers.        *)
EXTENDS Impl, TLC
CONSTANTS MaxCalls, Depth
VARIABLE calls
\* constants for the configuration files
BarRespond(m, e) ==
  LET t == e - m.x
      r == 2 + m.a
      d == IF t > r THEN t - r ELSE IF t < -r THEN t + r ELSE 0
  IN [sig |-> <<t - d>>, yields |-> d # 0,
      next |-> [x |-> m.x + d, a |-> m.a + (IF d < 0 THEN -d ELSE d)]]
BarLinear(e) == <<e>>
BarBelow(e) == e = 1
BarVirgin == [x |-> 0, a |-> 0]
BarJunks == {[x |-> 7, a |-> 1]}
BarNone == [x |-> 0, a |-> -1]
BarNoSig == <<>>
BarStrains == {-5, 1, 2}

M == INSTANCE Micropp WITH pt <- AbsPt
avars == <<order, AbsPt, rows, snaps>>
AbsNext ==
  \/ M!New \/ M!Homogenize \/ M!Update \/ M!Write
  \/ \E g \in Ids, e \in Strains : M!Set(g, e)
  \/ \E g \in Ids : M!Output(g, 0)

Call == IUpdate \/ HStart \/ (\E g \in Ids, e \in Strains : ISet(g, e))
        \/ (Depth > 1 /\ (INew \/ IWrite \/ \E g \in Ids : OStart(g, 0)))
INext == \/ calls < MaxCalls /\ Call /\ calls' = calls + 1
         \/ Inside /\ UNCHANGED calls
ISpec == IInit /\ calls = 0 /\ [][INext]_<<ivars, calls>>

Refines == M!Init /\ [][AbsNext]_avars
\* no junk is ever committed, pending or shown
NoJunk ==
  /\ \A g \in Known : gp[g].n \notin Junks /\ (pc # "save" => gp[g].k \notin Junks)
  /\ \A s \in DOMAIN snaps : snaps[s].com \notin Junks
\* both pointers or none
Paired == \A g \in Known : (gp[g].n = None) <=> (gp[g].k = None)
=============================================================================
