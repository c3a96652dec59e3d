------------------------------- MODULE SymmMC -------------------------------
(* The relabellings form a group acting on strains, stresses and tangents,  *)
(* and an isotropic law commutes with them.                                 *)
EXTENDS Symm, TLC
CONSTANTS Vals
VARIABLES d, f, g, t
MInit == /\ d \in {2, 3} /\ f \in Frames(d) /\ g \in Frames(d)
         /\ t \in { [i \in 1..NV(d) |-> IF i \in S THEN v + i ELSE i] : v \in Vals, S \in { {}, {1}, {NV(d)}, {2, NV(d) - 1} } }
MSpec == MInit /\ [][UNCHANGED <<d, f, g, t>>]_<<d, f, g, t>>
Action == Pull(d, Compose(d, f, g), t) = Pull(d, f, Pull(d, g, t))
Unit == Pull(d, Ident(d), t) = t
Invertible == \E h \in Frames(d) : Pull(d, h, Pull(d, f, t)) = t
Groups == \A m \in {0, 1} : f \in Allowed(d, m) /\ g \in Allowed(d, m) => Compose(d, f, g) \in Allowed(d, m)
\* Hooke's law with lambda = 2, mu = 3 (engineering shears)
Tr(x) == IF d = 2 THEN x[1] + x[2] ELSE x[1] + x[2] + x[3]
Hooke(x) == [i \in 1..NV(d) |-> IF i <= d THEN 2 * Tr(x) + 6 * x[i] ELSE 3 * x[i]]
Commutes == Pull(d, f, Hooke(t)) = Hooke(Pull(d, f, t))
\* the transformed tangent is the tangent of the transformed quantities
C == [k \in 1..NV(d) * NV(d) |-> (k * k) % 7]
Row(c, x, i) == LET RECURSIVE S(_)
                    S(j) == IF j = 0 THEN 0 ELSE c[(i - 1) * NV(d) + j] * x[j] + S(j - 1)
                IN S(NV(d))
Times(c, x) == [i \in 1..NV(d) |-> Row(c, x, i)]
Tangent == Pull(d, f, Times(C, t)) = Times(PullC(d, f, C), Pull(d, f, t))
=============================================================================
