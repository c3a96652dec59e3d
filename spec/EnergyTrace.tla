---------------------------- MODULE EnergyTrace ----------------------------
(***************************************************************************)
(* Recorded macroscopic answers against the energy statements.  Strains    *)
(* are integer vectors (times u0), stresses integers in u0*Mu/1000,        *)
(* tangents in Mu/1000; energies (stress times strain) in u0^2*Mu/1000.    *)
(***************************************************************************)
EXTENDS Energy, TLC, Json, IOUtils
VARIABLES l, c, n1, n2,   \* position, cell, elements of either material
          L,              \* elastic tangent
          it,             \* last linear answers: sequence of [e, s]
          w, e0           \* work done along the committed path, last committed strain
Trace == ndJsonDeserialize(IOEnv.TRACE)
Ev == Trace[l]
tvars == <<l, c, n1, n2, L, it, w, e0>>
Step(ev) == l <= Len(Trace) /\ Ev.ev = ev /\ l' = l + 1
Sat(x, m) == IF x > m THEN m ELSE IF x < -m THEN -m ELSE x
V == 1..NVoi(c)
Sum(f) == FoldFunctionOnSet(+, 0, f, V)
Dot(s, e) == Sum([v \in V |-> Sat(s[v], 2000000) * e[v]])
Size(e) == Sum([v \in V |-> Ab(e[v])])
Minus(a, b) == [v \in V |-> a[v] - b[v]]
Quad(M, e) == Sum([v \in V |-> e[v] * Sum([k \in V |-> Sat(M[v][k], 30000) * e[k]])])
Vec(a) == Len(a) = NVoi(c) /\ \A v \in V : Ab(a[v]) <= 100
Zero == [v \in V |-> 0]
Slack(e, x) == 3 * Size(e) + 3 + Ab(x) \div 20000

TInit == l = 1 /\ c = << >> /\ n1 = 0 /\ n2 = 0 /\ L = << >> /\ it = <<>> /\ w = 0 /\ e0 = << >>
TCell ==
  /\ Step("cell") /\ c' = Ev.c
  /\ n1' = Count(Ev.c, 1) /\ n2' = Count(Ev.c, 2)
  /\ L' = << >> /\ it' = <<>> /\ w' = 0 /\ e0' = << >>
Same == UNCHANGED <<c, n1, n2>>

\* Lower <= s.e <= Upper, for the cell's phases
Within(e, x) ==
  LET t == DF(c) * Slack(e, x) IN
  /\ DF(c) * Sat(x, 100000000) <= Upper(c, n1, n2, e) + t
  /\ DF(c) * Sat(x, 100000000) >= Lower(c, n1, n2, e) - t

\* answers of a linear cell: within the bounds, reciprocal, superposable
TLinear ==
  /\ Step("linear") /\ Same /\ it' = Ev.it /\ UNCHANGED <<L, w, e0>>
  /\ \A i \in 1..Len(Ev.it) : Vec(Ev.it[i].e) /\ Len(Ev.it[i].s) = NVoi(c)
  /\ \A i \in 1..Len(Ev.it) : Within(Ev.it[i].e, Dot(Ev.it[i].s, Ev.it[i].e))
  /\ \A i, j \in 1..Len(Ev.it) :
       LET a == Ev.it[i]
           b == Ev.it[j]
           x == Dot(a.s, b.e)
           sum == [v \in V |-> a.e[v] + b.e[v]]
       IN /\ Ab(x - Dot(b.s, a.e)) <= Slack(a.e, x) + Slack(b.e, x)
          /\ \A k \in 1..Len(Ev.it) : Ev.it[k].e = sum =>
               \A v \in V : Ab(Ev.it[k].s[v] - a.s[v] - b.s[v]) <= 3 + Ab(Ev.it[k].s[v]) \div 20000
                                                                  + (Ab(a.s[v]) + Ab(b.s[v])) \div 20000
\* the same strains on a cell none of whose elements is softer
TStiffer ==
  /\ Step("stiffer") /\ c' = Ev.c /\ n1' = Count(Ev.c, 1) /\ n2' = Count(Ev.c, 2)
  /\ it' = Ev.it /\ UNCHANGED <<L, w, e0>>
  /\ Assert(AsStiff(c, Ev.c) /\ Len(it) = Len(Ev.it), "recorder: not comparable")
  /\ \A i \in 1..Len(it) :
       /\ Assert(it[i].e = Ev.it[i].e, "recorder: strains differ")
       /\ LET x == Dot(Ev.it[i].s, it[i].e) IN x >= Dot(it[i].s, it[i].e) - 2 * Slack(it[i].e, x)
\* the same strains on a finer grid: more displacements to choose from
TFiner ==
  /\ Step("finer") /\ c' = Ev.c /\ n1' = Count(Ev.c, 1) /\ n2' = Count(Ev.c, 2)
  /\ it' = Ev.it /\ UNCHANGED <<L, w, e0>>
  /\ Assert(Refines(c, Ev.c, Ev.r) /\ Len(it) = Len(Ev.it), "recorder: not a refinement")
  /\ \A i \in 1..Len(it) :
       /\ Assert(it[i].e = Ev.it[i].e, "recorder: strains differ")
       /\ LET x == Dot(Ev.it[i].s, it[i].e) IN x <= Dot(it[i].s, it[i].e) + 2 * Slack(it[i].e, x)

\* the elastic tangent: symmetric and within the bounds, on the strains given
TElastic ==
  /\ Step("elastic") /\ Same /\ L' = Ev.C /\ UNCHANGED <<it, w, e0>>
  /\ Len(Ev.C) = NVoi(c) /\ \A i \in V : Len(Ev.C[i]) = NVoi(c)
  /\ \A i, j \in V : Ab(Ev.C[i][j] - Ev.C[j][i]) <= 3 + Ab(Ev.C[i][j]) \div 20000
  /\ \A k \in 1..Len(Ev.es) : Vec(Ev.es[k]) /\
       LET x == Quad(Ev.C, Ev.es[k])
           t == DF(c) * (2 * Size(Ev.es[k]) * Size(Ev.es[k]) + Ab(x) \div 20000)
       IN /\ DF(c) * x <= Upper(c, n1, n2, Ev.es[k]) + t
          /\ DF(c) * x >= Lower(c, n1, n2, Ev.es[k]) - t

\* a virgin point
TVirgin == Step("virgin") /\ Same /\ w' = 0 /\ e0' = Zero /\ UNCHANGED <<L, it>>

(* Answers from one committed state to several strains: going from one to  *)
(* another, stress and strain change in the same direction and no more     *)
(* than elastically.                                                       *)
TTrials ==
  /\ Step("trials") /\ Same /\ UNCHANGED <<L, it, w, e0>>
  /\ \A i \in 1..Len(Ev.it) : Vec(Ev.it[i].e) /\ Len(Ev.it[i].s) = NVoi(c)
  /\ \A i, j \in 1..Len(Ev.it) : i < j =>
       LET d == Minus(Ev.it[i].e, Ev.it[j].e)
           x == Dot(Minus([v \in V |-> Sat(Ev.it[i].s[v], 1000000)], [v \in V |-> Sat(Ev.it[j].s[v], 1000000)]), d)
           q == Quad(L, d)
           t == 3 * Size(d) + 2 * Size(d) * Size(d) + Ab(q) \div 20000
       IN x >= -t /\ x <= q + t
  /\ \A i \in 1..Len(Ev.it) : "T" \in DOMAIN Ev.it[i] =>
       \A v \in V : Ev.it[i].T[v] >= -Ev.tt /\ Ev.it[i].T[v] <= L[v][v] + Ev.tt

\* a committed step: the work done so far covers the elastic energy now stored
TCommit ==
  /\ Step("commit") /\ Same /\ UNCHANGED <<L, it>>
  /\ Vec(Ev.e) /\ Len(Ev.s) = NVoi(c) /\ e0' = Ev.e
  /\ LET x == w + Dot(Ev.s, Minus(Ev.e, e0))
         s10 == [v \in V |-> Sat(Ev.s[v] \div 100, 8000)]
         t == 200 + Ab(x) \div 200
     IN /\ w' = Sat(x, 150000000)
        /\ 12 * (Sat(x, 150000000) + t) >= 10 * Stored6(c, n1, n2, s10)

TNext == TCell \/ TLinear \/ TStiffer \/ TFiner \/ TElastic \/ TVirgin \/ TTrials \/ TCommit
TSpec == TInit /\ [][TNext]_tvars
TView == l
Accepted ==
  LET n == TLCGet("stats").diameter - 1 IN
  /\ PrintT("TRACE-POS " \o ToString(n) \o " OF " \o ToString(Len(Trace)))
  /\ n = Len(Trace)
=============================================================================
