------------------------------ MODULE MicroJ2 ------------------------------
(***************************************************************************)
(* Micropp for cells in which every material point sees the imposed        *)
(* strain (a homogeneous cell, or layers in a cell without interior nodes),*)
(* with the exact J2 law per material.                                     *)
(*                                                                         *)
(* Mats: sequence of materials, [mu, k: moduli as integer multiples of the *)
(* units; R0, H: yield radius and hardening; n: number of elements made of *)
(* it; plastic].  A material state is one J2 state per material; stress is *)
(* summed over elements (that is nelem times the volume average).          *)
(* P2: twice the linearity threshold in units of the volumetric strain.    *)
(***************************************************************************)
EXTENDS J2, FiniteSets
CONSTANTS Mats, P2
VARIABLES order, pt, rows, snaps

MIx == 1..Len(Mats)
RespM(i, m, e) ==
  IF Mats[i].plastic THEN Return(Mats[i].R0, Mats[i].H, m[i], e)
  ELSE [sig |-> [p |-> e.p, s |-> e.x], next |-> VirginJ2, yields |-> FALSE]
RECURSIVE SumP(_, _), SumS(_, _, _)
SumP(i, e) == IF i = 0 THEN 0 ELSE Mats[i].n * Mats[i].k * e.p + SumP(i - 1, e)
SumS(i, r, d) == IF i = 0 THEN 0 ELSE Mats[i].n * Mats[i].mu * r[i].sig.s[d] + SumS(i - 1, r, d)

J2Respond(m, e) ==
  LET r == [i \in MIx |-> RespM(i, m, e)] IN
  [sig |-> [p |-> SumP(Len(Mats), e), s |-> [d \in Dims |-> SumS(Len(Mats), r, d)]],
   next |-> [i \in MIx |-> r[i].next],
   yields |-> \E i \in MIx : r[i].yields]
J2Linear(e) ==
  LET r == [i \in MIx |-> [sig |-> [p |-> e.p, s |-> e.x]]] IN
  [p |-> SumP(Len(Mats), e), s |-> [d \in Dims |-> SumS(Len(Mats), r, d)]]
J2Below(e) == 2 * (IF e.p < 0 THEN -e.p ELSE e.p) < P2
J2Virgin == [i \in MIx |-> VirginJ2]
J2Fits(m, e) == \A i \in MIx : Mats[i].plastic => Representable(Mats[i].R0, Mats[i].H, m[i], e)

M == INSTANCE Micropp WITH
       Respond <- J2Respond, Linear <- J2Linear, Below <- J2Below,
       Virgin <- J2Virgin, NoSig <- [p |-> 0, s |-> Zero5]

\* S times the derivative of the (summed) deviatoric stress for the answer
\* computed with state m at strain e
RECURSIVE SumT(_, _, _, _, _, _)
SumT(k, m, e, S, i, j) ==
  IF k = 0 THEN 0
  ELSE Mats[k].n * Mats[k].mu *
         (IF Mats[k].plastic THEN TangentS(Mats[k].R0, Mats[k].H, m[k], e, S, i, j)
          ELSE IF i = j THEN S ELSE 0)
       + SumT(k - 1, m, e, S, i, j)
TangentOf(m, e, S, i, j) == SumT(Len(Mats), m, e, S, i, j)
RECURSIVE SumMod(_, _)
SumMod(k, f) == IF k = 0 THEN 0 ELSE Mats[k].n * Mats[k][f] + SumMod(k - 1, f)
=============================================================================
