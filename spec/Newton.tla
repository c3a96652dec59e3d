------------------------------- MODULE Newton -------------------------------
(***************************************************************************)
(* What equilibrium solves may report.  An equilibrium solve measures the  *)
(* residual and, while it is not below the tolerance and fewer than Limit  *)
(* iterations were made, solves one linear system.  A homogenization of a  *)
(* point makes one equilibrium solve for the stress and one per column of  *)
(* the tangent, or none at all (the shortcut).  Residuals are in units of  *)
(* a thousandth of the tolerance.                                          *)
(***************************************************************************)
EXTENDS Integers, Sequences, Functions
Limit == 40
Total(s) == FoldFunctionOnSet(+, 0, s, DOMAIN s)
\* one equilibrium solve s = [its, err]
SolveOK(s) ==
  /\ s.its \in 0..Limit
  /\ s.err >= 0
  /\ s.err < 1000 \/ s.its = Limit
Nothing(s) == s.its = 0 /\ s.err = 0
\* report p of a point: n+1 solves; kind says what is known about the cell
\* ("wild": loads that overflow; only the bound on the iterations holds)
PointOK(p, n, kind, tol) ==
  /\ Len(p.s) = n + 1
  /\ \A i \in 1..n + 1 : IF kind = "wild" THEN p.s[i].its \in 0..Limit ELSE SolveOK(p.s[i])
  /\ kind = "rigid" => \A i \in 1..n + 1 : p.s[i].its = 0      \* no interior unknowns
  /\ kind = "linear" => \A i \in 1..n + 1 : p.s[i].its <= 1 /\ p.s[i].err < 1000
  /\ p.short => \A i \in 1..n + 1 : Nothing(p.s[i])
  /\ p.never => \A i \in 1..n + 1 : Nothing(p.s[i])            \* not homogenized yet
  /\ p.work => p.s[1].its >= 1
  /\ (kind = "linear" /\ p.work) => p.s[1].its = 1
\* a reported residual is the norm of the residual of that solve (up to the
\* digits of the files)
SameResidual(r) == r.err * 1000 <= r.b * 1001 + 1000 /\ r.b * 1000 <= r.err * 1001 + 1000
Its(p) == Total([i \in 1..Len(p.s) |-> p.s[i].its])
\* linear systems solved by one homogenize call = iterations reported by all points
CallOK(ps, solves) == solves = Total([k \in 1..Len(ps) |-> Its(ps[k])])
=============================================================================
