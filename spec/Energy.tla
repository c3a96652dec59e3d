------------------------------- MODULE Energy -------------------------------
(***************************************************************************)
(* Energies of cells in integers: what two phases of isotropic materials   *)
(* can store at a given mean strain, whatever their arrangement, and which *)
(* of two cells is the stiffer one.                                        *)
(*                                                                         *)
(* A strain e is an integer Voigt vector (times u0), moduli are integers   *)
(* (times Mu), energies are in units of u0^2*Mu/1000.  DF(c) times the     *)
(* energy of a material is Kap*A(e) + mu*B(e): volumetric and deviatoric   *)
(* part.                                                                   *)
(***************************************************************************)
EXTENDS Fem
DF(c) == IF c.dim = 3 THEN 6 ELSE 2
Kap(c, m) == IF c.dim = 3 THEN 3 * m.lam + 2 * m.mu ELSE m.lam + m.mu
Tr(c, e) == IF c.dim = 3 THEN e[1] + e[2] + e[3] ELSE e[1] + e[2]
PartA(c, e) == 2 * Tr(c, e) * Tr(c, e)
PartB(c, e) ==
  LET t == Tr(c, e) IN
  IF c.dim = 3
  THEN 2 * (6 * (e[1]*e[1] + e[2]*e[2] + e[3]*e[3]) + 3 * (e[4]*e[4] + e[5]*e[5] + e[6]*e[6]) - 2 * t * t)
  ELSE 2 * (2 * (e[1]*e[1] + e[2]*e[2]) + e[3]*e[3] - t * t)

\* number of elements of material k
Count(c, k) == Cardinality({ e \in 0..NElem(c) - 1 : ElemMat(c, ElemAt(c, e)) = k })
\* a * b \div d for 0 <= a, 0 < d without leaving 32 bits (b small)
MulDiv(a, b, d) == (a \div d) * b + ((a % d) * b) \div d
\* 1000 times the arithmetic (rounded up) and the harmonic mean (rounded down)
\* of x1, x2 > 0 over n1, n2
Arith(n1, x1, n2, x2) == MulDiv(n1 * x1 + n2 * x2, 1000, n1 + n2) + 1
Harm(n1, x1, n2, x2) == MulDiv((n1 + n2) * x1 * x2, 1000, n1 * x2 + n2 * x1)

\* DF times the largest and smallest energy (stress times strain) at mean strain
\* e; the affine field gives the first, no field can be below the second
Upper(c, n1, n2, e) ==
  Arith(n1, Kap(c, c.mats[1]), n2, Kap(c, c.mats[2])) * PartA(c, e)
    + Arith(n1, c.mats[1].mu, n2, c.mats[2].mu) * PartB(c, e)
Lower(c, n1, n2, e) ==
  Harm(n1, Kap(c, c.mats[1]), n2, Kap(c, c.mats[2])) * PartA(c, e)
    + Harm(n1, c.mats[1].mu, n2, c.mats[2].mu) * PartB(c, e)

(* Twice the smallest elastic energy of a field of mean stress s (in       *)
(* u0*Mu/10), times 6, in u0^2*Mu/100; 3D.                                 *)
Sq1(x) == x * x
Stored6(c, n1, n2, s) ==
  LET t == s[1] + s[2] + s[3]
      d == 3 * (Sq1(s[1]) + Sq1(s[2]) + Sq1(s[3])) + 6 * (Sq1(s[4]) + Sq1(s[5]) + Sq1(s[6])) - t * t
      N == n1 + n2
  IN MulDiv(2 * t * t, N, n1 * Kap(c, c.mats[1]) + n2 * Kap(c, c.mats[2]))
     + MulDiv(IF d < 0 THEN 0 ELSE d, N, n1 * c.mats[1].mu + n2 * c.mats[2].mu)

\* every element of d at least as stiff as that of c (same grid)
AsStiff(c, d) ==
  /\ c.dim = d.dim /\ c.n = d.n /\ c.h = d.h
  /\ \A e \in 0..NElem(c) - 1 :
       LET m == c.mats[ElemMat(c, ElemAt(c, e))]
           k == d.mats[ElemMat(d, ElemAt(d, e))]
       IN Kap(d, k) >= Kap(c, m) /\ k.mu >= m.mu
\* d splits every element of c into r^dim elements of the same material
Refines(c, d, r) ==
  /\ c.dim = d.dim
  /\ \A i \in Dirs(c) : d.n[i] - 1 = r * (c.n[i] - 1) /\ c.h[i] = r * d.h[i]
  /\ \A e \in 0..NElem(d) - 1 :
       LET el == ElemAt(d, e)
           up == <<el[1] \div r, el[2] \div r, el[3] \div r>>
       IN d.mats[ElemMat(d, el)] = c.mats[ElemMat(c, up)]
=============================================================================
