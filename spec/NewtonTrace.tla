---------------------------- MODULE NewtonTrace ----------------------------
(* Recorded information files and solve counts against Newton.             *)
EXTENDS Newton, TLC, Json, IOUtils
VARIABLES l, c
Trace == ndJsonDeserialize(IOEnv.TRACE)
Ev == Trace[l]
tvars == <<l, c>>
Step(ev) == l <= Len(Trace) /\ Ev.ev = ev /\ l' = l + 1
TInit == l = 1 /\ c = << >>
TCell == Step("cell") /\ c' = Ev.c
\* the reports of all points after a homogenize call
THom ==
  /\ Step("hom") /\ UNCHANGED c
  /\ Len(Ev.ps) = Ev.n
  /\ \A k \in 1..Len(Ev.ps) : PointOK(Ev.ps[k], c.nvoi, c.kind, 0)
  /\ Ev.solves = -1 \/ CallOK(Ev.ps, Ev.solves)
\* the reports later on: unchanged until the next homogenize
TKeep == Step("keep") /\ UNCHANGED c /\ Ev.before = Ev.after
\* reported residuals against the norms of the residual fields in snapshots
TTruth == Step("truth") /\ UNCHANGED c /\ \A k \in 1..Len(Ev.rs) : SameResidual(Ev.rs[k])
TNext == TCell \/ THom \/ TKeep \/ TTruth
TSpec == TInit /\ [][TNext]_tvars
TView == l
Accepted ==
  LET n == TLCGet("stats").diameter - 1 IN
  /\ PrintT("TRACE-POS " \o ToString(n) \o " OF " \o ToString(Len(Trace)))
  /\ n = Len(Trace)
=============================================================================
