----------------------------- MODULE FieldTrace -----------------------------
(***************************************************************************)
(* Recorded fields of solved cells against the discrete mechanics of Fem.  *)
(* A recording is a sequence of cells; each starts with a "cell" event and *)
(* is followed by what the library showed for it: element types,           *)
(* displacements, element strains and stresses, averages, internal         *)
(* variables, macroscopic stress.                                          *)
(*                                                                         *)
(* Units: a strain is an integer vector e times u0; nodal displacements    *)
(* are recorded so that the affine field of e is K*Affine2(e).  Then       *)
(* StrainGp / StrainMean give 20*Vol*K units per u0.  Stresses are         *)
(* recorded in the unit in which a material of moduli (lam, mu) answers    *)
(* the strain integers, divided by c.q (element and macroscopic stresses). *)
(***************************************************************************)
EXTENDS Fem, J2, TLC, Json, IOUtils
VARIABLES l,     \* position
          c,     \* the current cell
          u,     \* the displacement shown last
          iv,    \* internal variables committed before the current step
          iw     \* internal variables committed last
Trace == ndJsonDeserialize(IOEnv.TRACE)
Ev == Trace[l]
tvars == <<l, c, u, iv, iw>>
Near(a, b, t) == Ab(a - b) <= t
\* recorded values are bounded before they are multiplied; the bounds lie far
\* beyond anything the tolerances accept, so wild values are rejected, not lost
Sat(x, m) == IF x > m THEN m ELSE IF x < -m THEN -m ELSE x
Shape(v, n, k) == Len(v) = n /\ \A i \in 1..n : Len(v[i]) = k
Max2(a, b) == IF a > b THEN a ELSE b
Step(ev) == l <= Len(Trace) /\ Ev.ev = ev /\ l' = l + 1
Hold == UNCHANGED <<c, u, iv, iw>>

Elems == 0..NElem(c) - 1
Nodes == 0..NNode(c) - 1
Gps == 0..NGp(c) - 1
V == 1..NVoi(c)
MatIx(e) == ElemMat(c, ElemAt(c, e))
MatOf(e) == c.mats[MatIx(e)]
SetOf(s) == { s[i] : i \in 1..Len(s) }

TInit == l = 1 /\ c = << >> /\ u = << >> /\ iv = << >> /\ iw = << >>
TCell == Step("cell") /\ c' = Ev.c /\ u' = << >> /\ iv' = << >> /\ iw' = << >>

----------------------------------------------------------------------------
\* the material of every element, as shown by a snapshot (0 first, 1 second)
TGeo ==
  /\ Step("geo") /\ Hold
  /\ Len(Ev.v) = NElem(c)
  /\ \A e \in Elems : Ev.v[e + 1] = MatIx(e) - 1

\* displacements: affine on the boundary
Affine(e, K, tol) ==
  \A m \in Nodes : OnBoundary(c, m) =>
    \A i \in Dirs(c) : Near(Ev.u[m + 1][i], K * Affine2(c, e, NodeAt(c, m), i), tol)
TDisp ==
  /\ Step("disp") /\ u' = Ev.u /\ UNCHANGED <<c, iv, iw>>
  /\ Shape(Ev.u, NNode(c), 3)
  /\ \A m \in Nodes : /\ \A i \in Dirs(c) : Ab(Ev.u[m + 1][i]) <= 600000
                       /\ (c.dim = 2 => Ev.u[m + 1][3] = 0)
  /\ Ev.chk => Affine(Ev.e, c.K, c.tu)

\* one u0 of strain in the values of StrainGp/StrainMean
One == 20 * Vol(c) * c.K
\* rounding of displacements (c.tu each) as it appears there
TolE == 20 * (c.tu + 2) * Vol(c)
\* how much of the stress such an error makes, for a material
TolS(m) == (3 * m.lam + 2 * m.mu) * TolE

\* forces: every interior node is in equilibrium with elastic element stresses
\* brought to c.fs units; weights sum to (number of points)/2 per direction
Sc(x, d) == x \div d
StressGp(e, g) == StressOf(c, MatOf(e), StrainGp(c, u, ElemAt(c, e), GpBits(g)))
EquilBy(Sig(_, _), tol) ==
  \A m \in Nodes : ~OnBoundary(c, m) =>
    \A i \in Dirs(c) : Near(ForceAt(c, Sig, NodeAt(c, m), i), 0, tol)
ElIx(el) == (IF c.dim = 3 THEN el[3] * Ne(c, 1) * Ne(c, 2) ELSE 0) + el[2] * Ne(c, 1) + el[1]
GpIx(s) == CHOOSE g \in Gps : GpBits(g) = s
GpMap == TLCEval([s \in Bits(c) |-> GpIx(s)])
FMax(F) == \* largest magnitude in a table of Voigt values
  FoldFunctionOnSet(Max2, 1, TLCEval([e \in Elems |->
     FoldFunctionOnSet(Max2, 1, TLCEval([g \in Gps |->
       FoldFunctionOnSet(Max2, 1, TLCEval([v \in V |-> Ab(F[e][g][v])]), V)]), Gps)]), Elems)
TEquil ==
  /\ Step("equil") /\ Hold
  /\ LET T == TLCEval([e \in Elems |-> TLCEval([g \in Gps |-> TLCEval(StressGp(e, g))])])
         D == FMax(T) \div 100000 + 1
         Q == TLCEval([e \in Elems |-> TLCEval([g \in Gps |-> TLCEval([v \in V |-> T[e][g][v] \div D])])])
         gm == GpMap
         Sig(el, s) == Q[ElIx(el)][gm[s]]
         worst == (FoldFunctionOnSet(Max2, 0, [k \in 1..Len(c.mats) |-> TolS(c.mats[k])], 1..Len(c.mats))) \div D + 2
         \* weights times 10 of all points and adjacent elements add up to this
     IN EquilBy(Sig, (IF c.dim = 3 THEN 500 ELSE 160) * Vol(c) * worst)

\* element strains of a snapshot: the mean of the derivative of the displacement
TStrain ==
  /\ Step("strain") /\ Hold
  /\ Shape(Ev.v, NElem(c), NVoi(c))
  /\ \A e \in Elems :
       LET s == StrainMean(c, u, ElemAt(c, e)) IN
       \A k \in V : Near(Sat(Ev.v[e + 1][k], 1000000) * (One \div c.ms), s[k], TolE + 2 * (One \div c.ms))

\* element stresses of a snapshot for linear elements: the material answers the
\* element's mean strain (the law is linear)
TStress ==
  /\ Step("stress") /\ Hold
  /\ Shape(Ev.v, NElem(c), NVoi(c))
  /\ \A e \in Elems : MatOf(e).linear =>
       LET s == StressOf(c, MatOf(e), StrainMean(c, u, ElemAt(c, e))) IN
       \A k \in V : Near(Sat(Ev.v[e + 1][k], 3000000) * (One \div c.ms), s[k], TolS(MatOf(e)) + 60 * (One \div c.ms))

\* averages of element values; all elements have the same volume.  Sums are
\* formed of values below 10^5 each.
TMean ==
  /\ Step("mean") /\ Hold
  /\ Shape(Ev.v, NElem(c), NVoi(c)) /\ Len(Ev.m) = NVoi(c)
  /\ \A k \in V :
       LET t == FoldFunctionOnSet(+, 0, [e \in Elems |-> Sat(Ev.v[e + 1][k], 5000000)], Elems)
       IN Near(t, NElem(c) * Sat(Ev.m[k], 5000000), NElem(c) * Ev.t)

\* the mean strain of the displacement field is the imposed one (10^6 per u0)
TAve ==
  /\ Step("ave") /\ Hold
  /\ \A k \in V : Near(Ev.v[k], 1000000 * Ev.e[k], 3)

\* an elastic answer in general (macroscopic tangent and stress):  m = C e with
\* all values given as integers, |C| <= 10^4, |e| <= 10^4
TProd ==
  /\ Step("prod") /\ Hold
  /\ \A k \in V : Near(FoldFunctionOnSet(+, 0, [j \in V |-> Ev.C[k][j] * Ev.e[j]], V), Ev.m[k], Ev.t)

\* a snapshot's grid: points, cells
CornerSeq(e) ==
  LET el == ElemAt(c, e)
      N(a, b, k) == NodeIx(c, el[1] + a, el[2] + b, el[3] + k) - 1
  IN IF c.dim = 2 THEN <<N(0,0,0), N(1,0,0), N(1,1,0), N(0,1,0)>>
     ELSE <<N(0,0,0), N(1,0,0), N(1,1,0), N(0,1,0), N(0,0,1), N(1,0,1), N(1,1,1), N(0,1,1)>>
TGrid ==
  /\ Step("grid") /\ Hold
  /\ Ev.counts = <<NNode(c), NElem(c)>>
  /\ Shape(Ev.pts, NNode(c), 3)
  /\ \A m \in Nodes : \A i \in 1..3 :
       Near(Ev.pts[m + 1][i], IF i <= c.dim THEN c.mp * NodeAt(c, m)[i] * c.h[i] ELSE 0, 2 + (c.mp * NodeAt(c, m)[i] * c.h[i]) \div 100000)
  /\ Len(Ev.con) = NElem(c)
  /\ \A e \in Elems : Ev.con[e + 1] = CornerSeq(e)
  /\ Ev.off = [e \in 1..NElem(c) |-> NGp(c) * e]
  /\ Ev.typ = [e \in 1..NElem(c) |-> IF c.dim = 2 THEN 9 ELSE 12]

----------------------------------------------------------------------------
\* Plasticity.  Strains at integration points in units of u0/M (M = c.M, small
\* enough for squares); internal variables are recorded in these units
\* (a = sqrt(3/2)*alpha).  iv[e][g] = <<six tensor components, a>>.
StrainM(e, g) ==
  LET s == StrainGp(c, u, ElemAt(c, e), GpBits(g))
      D == One \div c.M
  IN [v \in 1..6 |-> Sat(s[v] \div D, 50000)]
\* elastic deviator as tensor components, times 3; eps_p deviatoric
Dev3(s, p) ==
  LET tr == s[1] + s[2] + s[3]
  IN <<3 * (s[1] - p[1]) - tr, 3 * (s[2] - p[2]) - tr, 3 * (s[3] - p[3]) - tr,
       (3 * s[4]) \div 2 - 3 * p[4], (3 * s[5]) \div 2 - 3 * p[5], (3 * s[6]) \div 2 - 3 * p[6]>>
Sq(x) == Sat(x, 13000) * Sat(x, 13000)
Norm(t) == ISqrt(Sq(t[1]) + Sq(t[2]) + Sq(t[3]) + 2 * (Sq(t[4]) + Sq(t[5]) + Sq(t[6])))
Third(t) == [v \in 1..6 |-> t[v] \div 3]
NoVars == [k \in 1..7 |-> 0]

TVars ==   \* committed variables (n: their number per element and point)
  /\ Step("vars") /\ UNCHANGED <<c, u>>
  /\ Shape(Ev.v, NElem(c), 8)
  /\ \A e \in Elems : \A g \in 1..8 : Len(Ev.v[e + 1][g]) = 7 /\ \A k \in 1..7 : Ab(Ev.v[e + 1][g][k]) <= 50000
  /\ iv' = iw /\ iw' = Ev.v
\* a fresh point: nothing committed
TVirgin ==
  /\ Step("virgin") /\ UNCHANGED <<c, u>>
  /\ iv' = << >>
  /\ iw' = [e \in 1..NElem(c) |-> [g \in 1..8 |-> NoVars]]

Radius3(m, a) == m.R0 * c.M + m.H * Sat(a, 50000)      \* yield radius in u0/M units
Diff(p, w) == [v \in 1..7 |-> w[v] - p[v]]
\* the state committed last is admissible, and grew from the one before by flow
\* along the stress deviator (u: displacement at that state)
Admissible(e, g) ==
  LET m == MatOf(e)
      p == iv[e + 1][g + 1]
      w == iw[e + 1][g + 1]
  IN IF m.linear THEN w = NoVars
     ELSE LET x == Third(Dev3(StrainM(e, g), w))     \* elastic deviator
              n == Norm(x)
              d == Diff(p, w)
              dn == Norm(d)
              R == Radius3(m, p[7])
          IN /\ n <= R + c.ty
             /\ d[7] >= -c.tv
             /\ Near(d[1] + d[2] + d[3], 0, 3 * c.tv)
             /\ Near(d[7], dn, 3 * c.tv)
             /\ IF dn <= 3 * c.tv THEN TRUE
                ELSE /\ Near(n, R, c.ty)                 \* on the surface
                     /\ \A v \in 1..6 : Near(Sat(d[v], 30000) * n, Sat(x[v], 30000) * dn, c.ty * dn + 3 * c.tv * n)
\* elastic at the end of the step means unchanged variables
Unchanged(e, g) ==
  LET m == MatOf(e) IN m.linear \/
    (LET p == iv[e + 1][g + 1]
         w == iw[e + 1][g + 1]
         x == Third(Dev3(StrainM(e, g), p))
     IN Norm(x) <= Radius3(m, p[7]) - c.ty => \A v \in 1..7 : Near(w[v], p[v], c.tv))
TAdmiss ==
  /\ Step("admiss") /\ Hold
  /\ \A e \in Elems : \A g \in Gps : Admissible(e, g) /\ Unchanged(e, g)
\* stress from displacement and committed plastic strain, in M units times moduli
StressPl(e, g) ==
  LET s == StrainM(e, g)
      p == IF MatOf(e).linear THEN NoVars ELSE iw[e + 1][g + 1]
      t == [v \in 1..6 |-> IF v <= 3 THEN s[v] - p[v] ELSE s[v] - 2 * p[v]]
  IN StressOf(c, MatOf(e), t)
TEquilP ==
  /\ Step("equilp") /\ Hold
  /\ LET T == TLCEval([e \in Elems |-> TLCEval([g \in Gps |-> TLCEval(StressPl(e, g))])])
         D == FMax(T) \div 100000 + 1
         Q == TLCEval([e \in Elems |-> TLCEval([g \in Gps |-> TLCEval([v \in V |-> T[e][g][v] \div D])])])
         gm == GpMap
         Sig(el, s) == Q[ElIx(el)][gm[s]]
         worst == (FoldFunctionOnSet(Max2, 0, [k \in 1..Len(c.mats) |->
                     (3 * c.mats[k].lam + 2 * c.mats[k].mu) * (2 + c.te)], 1..Len(c.mats))) \div D + 2
     IN EquilBy(Sig, 500 * Vol(c) * worst)
\* element means of a snapshot: plastic strain norm and hardening
TPlast ==
  /\ Step("plast") /\ Hold
  /\ Len(Ev.n) = NElem(c) /\ Len(Ev.a) = NElem(c)
  /\ \A e \in Elems :
       LET q(g) == iw[e + 1][g]
           sn == FoldFunctionOnSet(+, 0, [g \in 1..8 |-> Norm(q(g))], 1..8)
           sa == FoldFunctionOnSet(+, 0, [g \in 1..8 |-> q(g)[7]], 1..8)
       IN /\ Near(8 * Sat(Ev.n[e + 1], 1000000), sn, 40)
          /\ Near(8 * Sat(Ev.a[e + 1], 1000000), sa, 40)
\* element stresses of a snapshot of a plastic cell: at each point the material's
\* answer to the strain shown, from the committed variables (return mapping);
\* three times the stress
StressRet(e, g) ==
  LET m == MatOf(e)
      s == StrainM(e, g)
      w == IF m.linear THEN NoVars ELSE iw[e + 1][g + 1]
      x == Dev3(s, w)                    \* three times the trial deviator
      n == Norm(Third(x))
      R == Radius3(m, w[7])
      y == IF m.linear \/ n <= R THEN x ELSE [v \in 1..6 |-> (Sat(x[v], 39000) * R) \div n]
      k == (3 * m.lam + 2 * m.mu) * (s[1] + s[2] + s[3])
  IN [v \in 1..6 |-> (IF v <= 3 THEN k ELSE 0) + 2 * m.mu * y[v]]
TStressP ==
  /\ Step("stressp") /\ Hold
  /\ Shape(Ev.v, NElem(c), NVoi(c))
  /\ \A e \in Elems :
       LET T == TLCEval([g \in Gps |-> TLCEval(StressRet(e, g))])
           m == MatOf(e)
       IN \A k \in V :
            Near(24 * Sat(Ev.v[e + 1][k], 5000000), FoldFunctionOnSet(+, 0, [g \in Gps |-> T[g][k]], Gps),
                 24 * (3 * m.lam + 2 * m.mu) * (4 + c.te))

----------------------------------------------------------------------------
\* The non-linear flag.  u: displacement of the cell as if it were elastic; a
\* recorded limit is the yield radius in u0/M units; values within c.ty of the
\* limit are not decided.
TFlag ==
  /\ Step("flag") /\ Hold
  /\ LET cand == IF c.dim = 2 THEN {} ELSE { e \in Elems : ~MatOf(e).linear }
         T == TLCEval([e \in cand |-> TLCEval([g \in Gps |-> Norm(Third(Dev3(StrainM(e, g), NoVars)))])])
     IN \A k \in 1..Len(Ev.runs) :
          LET r == Ev.runs[k]
              lim(e) == r.R[MatIx(e)]
              above == \E e \in cand : \E g \in Gps : T[e][g] > lim(e) + c.ty
              below == \A e \in cand : \A g \in Gps : T[e][g] < lim(e) - c.ty
          IN /\ r.nl \in {0, 1}
             /\ above => r.nl = 1
             /\ below => r.nl = 0

TNext == TCell \/ TGeo \/ TDisp \/ TEquil \/ TStrain \/ TStress \/ TMean \/ TAve \/ TProd \/ TGrid
         \/ TVars \/ TVirgin \/ TAdmiss \/ TEquilP \/ TPlast \/ TStressP \/ TFlag
TSpec == TInit /\ [][TNext]_tvars
TView == l
Accepted ==
  LET n == TLCGet("stats").diameter - 1 IN
  /\ PrintT("TRACE-POS " \o ToString(n) \o " OF " \o ToString(Len(Trace)))
  /\ n = Len(Trace)
=============================================================================
