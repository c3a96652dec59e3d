------------------------------ MODULE EnergyMC ------------------------------
(***************************************************************************)
(* The energy statements, checked on their own: (a) every displacement of  *)
(* the interior node of a 2D cell gives an energy above Lower, the affine  *)
(* one gives Upper; (b) along every committed path of J2 materials the     *)
(* work done covers the elastic energy stored, and two answers from the    *)
(* same state differ monotonously and at most elastically.                 *)
(***************************************************************************)
EXTENDS Energy, MicroJ2, TLC
CONSTANTS Moves, Part, MaxSteps, Ks, Dirs2
VARIABLES cell, disp, est,     \* (a)
          st, cur, work, steps \* (b)
evars == <<order, pt, rows, snaps, cell, disp, est, st, cur, work, steps>>
Idle == order = <<>> /\ pt = << >> /\ rows = <<>> /\ snaps = << >>

EMats == << [mu |-> 1, k |-> 1, R0 |-> 10, H |-> 2, n |-> 1, plastic |-> TRUE],
            [mu |-> 2, k |-> 3, R0 |-> 15, H |-> 0, n |-> 2, plastic |-> TRUE] >>
ESoft == << [mu |-> 1, k |-> 1, R0 |-> 15, H |-> -1, n |-> 1, plastic |-> TRUE],
            [mu |-> 1, k |-> 2, R0 |-> 10, H |-> 0, n |-> 1, plastic |-> FALSE] >>
EKs == {-4, -2, 0, 1, 2, 3, 5}
EDirs == { <<3, 4, 0, 0, 0>>, <<0, 0, 5, 0, 0>>, <<-3, 4, 0, 0, 0>> }
K == 100
EMoves == -1..1
EMore == -5..5
Cells ==
  { [dim |-> 2, n |-> <<3, 3, 1>>, h |-> h, micro |-> 1, w |-> w, wden |-> 1, mats |-> mm] :
      h \in { <<1, 1, 1>>, <<1, 2, 1>>, <<2, 1, 1>> }, w \in {0, 2, 4, 9},
      mm \in { << [lam |-> 1, mu |-> 1], [lam |-> 0, mu |-> 3] >>,
               << [lam |-> 4, mu |-> 1], [lam |-> -1, mu |-> 2] >> } }
Ests == { <<1, 0, 0>>, <<0, -1, 0>>, <<1, 1, 0>>, <<0, 0, 2>>, <<1, -1, 1>>, <<2, -1, -1>> }
Strains5 == { [p |-> 0, x |-> Mul5(k, d)] : k \in Ks, d \in Dirs2 }

EInit ==
  /\ Idle
  /\ IF Part = "bounds"
     THEN /\ cell \in Cells /\ est \in Ests
          /\ disp \in { <<a * 50, b * 50>> : a \in Moves, b \in Moves }
     ELSE cell = << >> /\ est = << >> /\ disp = << >>
  /\ st = J2Virgin /\ cur = Zero5 /\ work = 0 /\ steps = 0

\* nmu-weighted sum over the materials of a deviatoric product
RECURSIVE SumM(_, _)
SumM(i, f) == IF i = 0 THEN 0 ELSE Mats[i].n * Mats[i].mu * f[i] + SumM(i - 1, f)
ENext ==
  /\ Part = "work" /\ steps < MaxSteps
  /\ \E e \in Strains5 :
       /\ J2Fits(st, e)
       /\ LET r == J2Respond(st, e) IN
          /\ work' = work + Dot5(r.sig.s, Sub5(e.x, cur))
          /\ st' = r.next
       /\ cur' = e.x
  /\ steps' = steps + 1
  /\ UNCHANGED <<order, pt, rows, snaps, cell, disp, est>>
ESpec == EInit /\ [][ENext]_evars

----------------------------------------------------------------------------
\* the field: affine on the boundary, disp added at the interior node
Field == [m \in 1..9 |-> LET p == NodeAt(cell, m - 1) IN
            [i \in 1..3 |-> IF i = 3 THEN 0
               ELSE K * Affine2(cell, est, p, i) + (IF m = 5 THEN disp[i] ELSE 0)]]
\* strains in u0/200 at the integration points
G20 == Vol(cell) * 10
EnergyOf(u) ==      \* sum over all points of stress times strain, in (u0/200)^2
  LET f(e, g) == LET el == ElemAt(cell, e)
                     s == (StrainGp(cell, u, el, GpBits(g)))
                     t == ([v \in 1..3 |-> s[v] \div G20])
                     q == (StressOf(cell, cell.mats[ElemMat(cell, el)], t))
                 IN t[1] * q[1] + t[2] * q[2] + t[3] * q[3]
  IN SumSet([x \in 0..15 |-> f(x \div 4, x % 4)], 0..15)
N1 == Count(cell, 1)
N2 == Count(cell, 2)
\* DF times energy in units of 1/1000
Measured == (DF(cell) * EnergyOf((Field))) \div 640
Slack == 40 + Upper(cell, N1, N2, est) \div 25
Bounds ==
  Part = "bounds" =>
    /\ LET m == (Measured)
           lo == (Lower(cell, N1, N2, est))
           up == (Upper(cell, N1, N2, est))
       IN /\ m >= lo - Slack
          /\ disp = <<0, 0>> => Ab(m - up) <= Slack
          /\ lo <= up
    /\ AsStiff(cell, cell) /\ Refines(cell, cell, 1)

\* (b)
WorkCovers ==
  Part = "work" =>
    2 * work >= SumM(Len(Mats), [i \in MIx |->
        Sq5(IF Mats[i].plastic THEN Sub5(cur, st[i].xp) ELSE cur)])
Stable ==
  Part = "work" =>
    LET P == { <<e.x, J2Respond(st, e).sig.s>> : e \in { e \in Strains5 : J2Fits(st, e) } }
        tot == SumM(Len(Mats), [i \in MIx |-> 1])
    IN \A a, b \in P :
        LET d == Sub5(a[1], b[1])
            w == Dot5(Sub5(a[2], b[2]), d)
        IN w >= 0 /\ w <= tot * Sq5(d)
=============================================================================
