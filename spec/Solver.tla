------------------------------- MODULE Solver -------------------------------
(***************************************************************************)
(* What an iterative solver may report: it measures the residual, stops if *)
(* it is below the tolerance, otherwise improves the vector and counts one *)
(* iteration, until the limit.  Residuals are in units of tol/1000.        *)
(***************************************************************************)
EXTENDS Integers
\* the contract on a finished solve s: [kind, its, limit, err, res, res0,
\* drift, n, same (vector unchanged), quick (bounded by the unknowns)]
Reported(s) ==
  /\ s.rc = 0
  /\ s.its >= 0 /\ s.its <= s.limit
  /\ s.err >= 0
  /\ s.err < 1000 => s.res < 1000 + s.drift             \* success is truthful
  /\ s.err >= 1000 => s.its = s.limit                   \* failure only at the limit
  /\ s.limit = 0 => /\ s.same                           \* nothing allowed: only measures
                    /\ s.res0 >= 1000 + s.drift => s.err >= 1000
                    /\ s.res0 < 1000 - s.drift => s.err < 1000
  /\ (s.kind # "jac" /\ s.res0 < 1000 - s.drift) => s.its = 0 /\ s.same /\ s.err < 1000
  /\ (s.kind = "jac" /\ s.res0 <= 10 /\ s.drift < 100) => s.its = 0 /\ s.err < 1000
  /\ (s.kind # "jac" /\ s.limit > s.quick) => s.its <= s.quick /\ s.err < 1000
=============================================================================
