----------------------------- MODULE MacroTrace -----------------------------
(***************************************************************************)
(* Macroscopic answers of arbitrary cells: tangents as difference          *)
(* quotients, linear answers as products, and which way a point was        *)
(* answered.  Tangents are integers in a unit of about 10^-5 of their      *)
(* largest entry; strains in products are integers up to 1000.             *)
(***************************************************************************)
EXTENDS Integers, Sequences, Functions, TLC, Json, IOUtils
VARIABLES l, c, L, y     \* position, cell, linear tangent, identifiers that yielded
Trace == ndJsonDeserialize(IOEnv.TRACE)
Ev == Trace[l]
tvars == <<l, c, L, y>>
Abs(x) == IF x < 0 THEN -x ELSE x
Sat(x, m) == IF x > m THEN m ELSE IF x < -m THEN -m ELSE x
Near(a, b, t) == Abs(a - b) <= t
Step(ev) == l <= Len(Trace) /\ Ev.ev = ev /\ l' = l + 1
V == 1..c.nvoi
Square(C) == Len(C) = c.nvoi /\ \A i \in V : Len(C[i]) = c.nvoi
CMax == 200000
Dot(r, e) == FoldFunctionOnSet(+, 0, [j \in V |-> Sat(r[j], CMax) * e[j]], V)
Invariant(C, e) == FoldFunctionOnSet(+, 0, [i \in 1..c.dim |-> Dot(C[i], e) \div 10], 1..c.dim)   \* tenth
AbsSum(e) == FoldFunctionOnSet(+, 0, [j \in V |-> Abs(e[j])], V)

TInit == l = 1 /\ c = << >> /\ L = << >> /\ y = {}
TCell == Step("cell") /\ c' = Ev.c /\ L' = << >> /\ y' = {}
\* a new object for the same cell
TFresh == Step("fresh") /\ y' = {} /\ UNCHANGED <<c, L>>
\* the linear tangent: symmetric
TLin ==
  /\ Step("lin") /\ Square(Ev.C) /\ L' = Ev.C /\ UNCHANGED <<c, y>>
  /\ \A i, j \in V : Near(Ev.C[i][j], Ev.C[j][i], Ev.t) /\ Abs(Ev.C[i][j]) <= CMax
  /\ \A i \in V : Ev.C[i][i] > 0
\* a tangent that has to be the linear one
TSame ==
  /\ Step("same") /\ UNCHANGED <<c, L, y>> /\ Square(Ev.C)
  /\ \A i, j \in V : Near(Ev.C[i][j], L[i][j], Ev.t)
\* a linear answer: stress is linear tangent times strain
TProd ==
  /\ Step("prod") /\ UNCHANGED <<c, L, y>> /\ Len(Ev.s) = c.nvoi
  /\ \A i \in V : Near(Dot(L[i], Ev.e), Ev.s[i], Ev.t)
\* the tangent is the derivative of the stress
TFd ==
  /\ Step("fd") /\ UNCHANGED <<c, L, y>> /\ Square(Ev.C) /\ Square(Ev.D)
  /\ \A i, j \in V : Near(Ev.C[i][j], Ev.D[i][j], Ev.t)

(* The same with the two one-sided quotients F and B.  Where they differ the *)
(* stress has a kink at this strain in that direction (points exactly on    *)
(* the yield surface) and there is no derivative to compare with.           *)
TFdk ==
  /\ Step("fdk") /\ UNCHANGED <<c, L, y>> /\ Square(Ev.C) /\ Square(Ev.F) /\ Square(Ev.B)
  /\ \A j \in V :
       (\A i \in V : Near(Ev.F[i][j], Ev.B[i][j], Ev.k))
         => \A i \in V : Near(2 * Ev.C[i][j], Ev.F[i][j] + Ev.B[i][j], 2 * Ev.t)

(* A homogenization of point id at strain e with threshold tol (same unit   *)
(* as Invariant).  its: reported iterations of the stress solve, solves:    *)
(* linear systems solved, nl: flag afterwards.  mustwork: solving the cell  *)
(* at this strain needs at least one iteration (not in equilibrium).        *)
TThr ==
  /\ Step("thr") /\ UNCHANGED <<c, L>>
  /\ LET inv == Abs(Invariant(L, Ev.e))
         m == AbsSum(Ev.e) + 10
         below == inv + m < Ev.tol        \* surely below
         above == inv - m >= Ev.tol \/ Ev.tol <= 0
     IN /\ (Ev.id \notin y /\ below) => Ev.its = 0 /\ Ev.solves = 0 /\ Ev.nl = 0
        /\ ((Ev.id \in y \/ above) /\ Ev.mustwork) => Ev.its > 0 /\ Ev.solves > 0
        /\ Ev.id \in y => Ev.nl = 1
  /\ y' = IF Ev.nl = 1 THEN y \cup {Ev.id} ELSE y

TNext == TCell \/ TFresh \/ TLin \/ TSame \/ TProd \/ TFd \/ TFdk \/ TThr
TSpec == TInit /\ [][TNext]_tvars
TView == l
Accepted ==
  LET n == TLCGet("stats").diameter - 1 IN
  /\ PrintT("TRACE-POS " \o ToString(n) \o " OF " \o ToString(Len(Trace)))
  /\ n = Len(Trace)
=============================================================================
