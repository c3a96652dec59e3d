-------------------------------- MODULE Fem --------------------------------
(***************************************************************************)
(* The discrete mechanics of a micro cell in integers: the structured grid,*)
(* the material at each element, strains at the integration points of      *)
(* bilinear/trilinear elements, stresses, internal forces, averages.       *)
(*                                                                         *)
(* A cell is a record                                                      *)
(*   dim, n = nodes per direction, h = element edges (integers),           *)
(*   micro, w (see ElemMat), mats = [lam, mu] per material (integers).     *)
(* In 2D n[3] = 2, h[3] = 1 is never used: operators take dim.             *)
(* Displacements are functions 1..nodes -> <<ux, uy, uz>> of integers up   *)
(* to about 10^6 in magnitude.                                             *)
(*                                                                         *)
(* Scaled products W*u/10^4 with integer weights in units of 10^-5 keep    *)
(* everything within TLC's 32-bit integers; the rounding is at most one    *)
(* unit per product, far below the tolerances used in the trace modules.   *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, Functions

Ab(x) == IF x < 0 THEN -x ELSE x
Dirs(c) == 1..c.dim
Ne(c, d) == c.n[d] - 1

\* elements <<ex, ey, ez>> (0-based) in the library's order
ElemAt(c, e) ==   \* e from 0
  <<e % Ne(c, 1), (e \div Ne(c, 1)) % Ne(c, 2),
    IF c.dim = 3 THEN e \div (Ne(c, 1) * Ne(c, 2)) ELSE 0>>
NElem(c) == Ne(c, 1) * Ne(c, 2) * (IF c.dim = 3 THEN Ne(c, 3) ELSE 1)
NNode(c) == c.n[1] * c.n[2] * (IF c.dim = 3 THEN c.n[3] ELSE 1)
NodeIx(c, i, j, k) == k * c.n[1] * c.n[2] + j * c.n[1] + i + 1
NodeAt(c, m) ==   \* m from 0
  <<m % c.n[1], (m \div c.n[1]) % c.n[2], IF c.dim = 3 THEN m \div (c.n[1] * c.n[2]) ELSE 0>>
OnBoundary(c, m) == LET p == NodeAt(c, m) IN \E d \in Dirs(c) : p[d] = 0 \/ p[d] = c.n[d] - 1

(* Which material an element is made of (1 or 2), from its centre.  Twice  *)
(* the centre's offset from the cell centre is ((2e+1)-(n-1))h; w is the   *)
(* inclusion's (2*radius)^2 over 1/c.wden, or twice the layer thickness    *)
(* over 1/c.wden.                                                          *)
ElemMat(c, el) ==
  LET off(d) == (2 * el[d] + 1 - (c.n[d] - 1)) * c.h[d]
      r2 == off(1) * off(1) + off(2) * off(2) + (IF c.dim = 3 THEN off(3) * off(3) ELSE 0)
  IN IF c.micro = 0 THEN (IF r2 * c.wden < c.w THEN 2 ELSE 1)
     ELSE (IF (2 * el[2] + 1) * c.h[2] * c.wden < c.w THEN 2 ELSE 1)

----------------------------------------------------------------------------
\* W * u / 10^4 without leaving 32 bits, |u| <= 2*10^6 or so, W <= 10^5
Scaled(W, u) == (W * (u \div 1000)) \div 10 + (W * (u % 1000)) \div 10000

\* corners and integration points of an element as bits <<a, b, c>>
Bits(c) == IF c.dim = 3 THEN {0, 1} \X {0, 1} \X {0, 1} ELSE {0, 1} \X {0, 1} \X {0}
\* the library's numbering of integration points
GpBits(g) == LET a == g % 4 IN <<IF a \in {1, 2} THEN 1 ELSE 0, IF a \in {2, 3} THEN 1 ELSE 0, g \div 4>>
NGp(c) == IF c.dim = 3 THEN 8 ELSE 4

\* product of the linear shape functions in the directions other than d at
\* integration point s for corner b, times 10^5: (1 +- 1/sqrt 3)/2 each
WShape(c, d, s, b) ==
  IF c.dim = 2
  THEN LET o == 3 - d IN IF s[o] = b[o] THEN 78868 ELSE 21132
  ELSE LET m == Cardinality({ o \in 1..3 : o # d /\ s[o] = b[o] })
       IN CASE m = 2 -> 62201 [] m = 1 -> 16667 [] m = 0 -> 4465

CornerNode(c, el, b) == NodeIx(c, el[1] + b[1], el[2] + b[2], el[3] + b[3])
Flip(b, d) == [b EXCEPT ![d] = 1]
SumSet(f, S) == FoldFunctionOnSet(+, 0, f, S)

\* 10 * (difference of u_i across the element in direction d) at point s;
\* dividing by h[d] gives the derivative
EdgeDiff(c, u, el, s, i, d) ==
  LET E == { b \in Bits(c) : b[d] = 0 }
  IN SumSet([b \in E |-> Scaled(WShape(c, d, s, b),
                                u[CornerNode(c, el, Flip(b, d))][i] - u[CornerNode(c, el, b)][i])], E)
\* the same, averaged over the element (exact weights 1/4 resp. 1/2)
EdgeMean(c, u, el, i, d) ==
  LET E == { b \in Bits(c) : b[d] = 0 }
      t == SumSet([b \in E |-> u[CornerNode(c, el, Flip(b, d))][i] - u[CornerNode(c, el, b)][i]], E)
  IN IF c.dim = 2 THEN 5 * t ELSE (5 * t) \div 2

Vol(c) == c.h[1] * c.h[2] * (IF c.dim = 3 THEN c.h[3] ELSE 1)
\* Voigt components: xx yy zz xy xz yz (3D), xx yy xy (2D), engineering shears
NVoi(c) == IF c.dim = 3 THEN 6 ELSE 3
VoigtIx(c, v) == IF c.dim = 3 THEN <<<<1,1>>, <<2,2>>, <<3,3>>, <<1,2>>, <<1,3>>, <<2,3>>>>[v]
                 ELSE <<<<1,1>>, <<2,2>>, <<1,2>>>>[v]

\* 10 * Vol * strain, from a gradient function G(i, d) = 10 * Vol * du_i/dx_d
StrainOf(c, G(_, _)) ==
  [v \in 1..NVoi(c) |-> LET p == VoigtIx(c, v) IN
     IF p[1] = p[2] THEN G(p[1], p[1]) ELSE G(p[1], p[2]) + G(p[2], p[1])]
StrainGp(c, u, el, s) ==
  LET G(i, d) == EdgeDiff(c, u, el, s, i, d) * (Vol(c) \div c.h[d]) IN StrainOf(c, G)
StrainMean(c, u, el) ==
  LET G(i, d) == EdgeMean(c, u, el, i, d) * (Vol(c) \div c.h[d]) IN StrainOf(c, G)

\* isotropic elasticity (plane strain in 2D); stress components have no factor 2
StressOf(c, m, e) ==
  LET tr == IF c.dim = 3 THEN e[1] + e[2] + e[3] ELSE e[1] + e[2] IN
  [v \in 1..NVoi(c) |->
     IF v <= c.dim THEN m.lam * tr + 2 * m.mu * e[v] ELSE m.mu * e[v]]

\* component (i, d) of a Voigt stress
Comp(c, s, i, d) ==
  IF c.dim = 2 THEN (IF i = d THEN s[i] ELSE s[3])
  ELSE IF i = d THEN s[i]
       ELSE IF i + d = 3 THEN s[4] ELSE IF i + d = 4 THEN s[5] ELSE s[6]

(* Internal force at an interior node (0-based position p), direction i:   *)
(* sum over the adjacent elements and their integration points of          *)
(* dN/dx_d * sigma_id, as a multiple of Vol^2 / (number of points).        *)
(* Sig(el, s): Voigt stress at point s of element el, at most 3*10^5.      *)
ForceAt(c, Sig(_, _), p, i) ==
  LET Els == { b \in Bits(c) : TRUE }      \* node is corner b of element p - b
  IN SumSet([b \in Els |->
       LET el == <<p[1] - b[1], p[2] - b[2], p[3] - b[3]>> IN
       SumSet([s \in Bits(c) |->
         LET sg == Sig(el, s) IN
         SumSet([d \in Dirs(c) |->
           (IF b[d] = 1 THEN 1 ELSE -1) * (Vol(c) \div c.h[d])
             * Scaled(WShape(c, d, s, b), Comp(c, sg, i, d))], Dirs(c))], Bits(c))], Els)

\* boundary displacement of strain e (Voigt, engineering shears), times two
Affine2(c, e, p, i) ==
  LET x(d) == p[d] * c.h[d]
      sh(a, b) == IF c.dim = 2 THEN e[3]
                  ELSE IF a + b = 3 THEN e[4] ELSE IF a + b = 4 THEN e[5] ELSE e[6]
  IN SumSet([d \in Dirs(c) |-> IF d = i THEN 2 * e[i] * x(i) ELSE sh(i, d) * x(d)], Dirs(c))
=============================================================================
