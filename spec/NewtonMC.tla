------------------------------ MODULE NewtonMC ------------------------------
(* The equilibrium iteration with an arbitrary residual after every step,   *)
(* for one point with one tangent column; all it can report is accepted.    *)
EXTENDS Newton
CONSTANTS Res
VARIABLES pc, k, res, its, err, s, solves
nvars == <<pc, k, res, its, err, s, solves>>
NInit == pc = "measure" /\ k = 1 /\ res \in Res /\ its = 0 /\ err = 0 /\ s = << >> /\ solves = 0
Close == s' = Append(s, [its |-> its', err |-> err'])
NextSolve == IF k = 2 THEN pc' = "done" /\ k' = k ELSE pc' = "measure" /\ k' = k + 1
Measure ==
  /\ pc = "measure" /\ err' = res /\ UNCHANGED solves
  /\ IF res < 1000 THEN its' = 0 /\ s' = Append(s, [its |-> its, err |-> res]) /\ NextSolve /\ res' \in Res
     ELSE pc' = "improve" /\ UNCHANGED <<its, s, k, res>>
Improve ==
  /\ pc = "improve" /\ solves' = solves + 1 /\ res' \in Res
  /\ IF its + 1 = Limit THEN s' = Append(s, [its |-> its + 1, err |-> err]) /\ its' = 0 /\ err' = 0 /\ NextSolve
     ELSE its' = its + 1 /\ pc' = "measure" /\ UNCHANGED <<s, k, err>>
NNext == Measure \/ Improve
NSpec == NInit /\ [][NNext]_nvars /\ WF_nvars(NNext)
P == [s |-> s, short |-> FALSE, never |-> FALSE, work |-> FALSE]
Truthful == pc = "done" => PointOK(P, 1, "any", 0) /\ CallOK(<<P>>, solves)
Bounded == solves <= 2 * Limit
Ends == <>(pc = "done")
ResC == {0, 999, 1000, 70000}
=============================================================================
