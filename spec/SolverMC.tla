------------------------------ MODULE SolverMC ------------------------------
(* The iteration as a machine, with an arbitrary residual after every step; *)
(* everything it can report satisfies the contract.                         *)
EXTENDS Solver
CONSTANTS Limits, Res
VARIABLES pc, its, limit, err, res, res0, moved, kind
svars == <<pc, its, limit, err, res, res0, moved, kind>>
SInit == /\ limit \in Limits /\ res0 \in Res /\ res = res0 /\ its = 0 /\ pc = "measure"
         /\ err = 0 /\ moved = FALSE /\ kind \in {"cgs", "jac"}
\* conjugate gradients measure first; the sweep method improves first and
\* does not count the sweep after which it stops
Measure == /\ kind # "jac" /\ pc = "measure" /\ err' = res
           /\ pc' = (IF res < 1000 \/ its >= limit THEN "done" ELSE "improve")
           /\ UNCHANGED <<its, limit, res, res0, moved, kind>>
Improve == /\ kind # "jac" /\ pc = "improve" /\ res' \in Res /\ its' = its + 1 /\ moved' = TRUE
           /\ pc' = (IF its' < limit THEN "measure" ELSE "done")
           /\ UNCHANGED <<limit, err, res0, kind>>
Idle == /\ kind = "jac" /\ pc = "measure" /\ its >= limit /\ err' = res /\ pc' = "done"
        /\ UNCHANGED <<its, limit, res, res0, moved, kind>>
Sweep == /\ kind = "jac" /\ pc = "measure" /\ its < limit
         /\ res' \in { r \in Res : res <= 10 => r < 1000 }
         /\ err' = res' /\ moved' = TRUE
         /\ its' = (IF res' < 1000 THEN its ELSE its + 1)
         /\ pc' = (IF res' < 1000 \/ its' = limit THEN "done" ELSE "measure")
         /\ UNCHANGED <<limit, res0, kind>>
SNext == Measure \/ Improve \/ Idle \/ Sweep
SSpec == SInit /\ [][SNext]_svars /\ WF_svars(SNext)
Truthful == pc = "done" => Reported([rc |-> 0, kind |-> kind, its |-> its, limit |-> limit, err |-> err, res |-> res,
              res0 |-> res0, drift |-> 0, same |-> ~moved, quick |-> limit])
Ends == <>(pc = "done")
LimitsC == {0, 1, 2, 5}
ResC == {0, 10, 999, 1000, 5000}
=============================================================================
