--------------------------------- MODULE J2 ---------------------------------
(***************************************************************************)
(* The J2 material law with the library's (lagged) linear hardening, in    *)
(* exact integers.                                                         *)
(*                                                                         *)
(* A strain is [p |-> volumetric part, x |-> deviatoric part]: p times the *)
(* unit tensor, and the five coordinates x of the deviator in an           *)
(* orthonormal basis of the deviatoric tensors, all in a unit strain u0.   *)
(* A material state is [xp |-> plastic strain, a |-> hardening].  A stress *)
(* is [p, s] in the units 3*K*u0 (mean part) and 2*mu*u0 (deviator), so an *)
(* elastic material maps strain to stress by the identity.  The yield      *)
(* radius is R0 + H*a with a in units of u0 (a = sqrt(3/2)*alpha/u0).      *)
(*                                                                         *)
(* Radial return divides by the norm of the trial deviator; the law is     *)
(* only applied to trials for which the division is exact (Representable), *)
(* which is a restriction of the inputs, not an approximation of the law.  *)
(***************************************************************************)
EXTENDS Integers, Sequences

Dims == 1..5
Zero5 == <<0, 0, 0, 0, 0>>
Add5(x, y) == [i \in Dims |-> x[i] + y[i]]
Sub5(x, y) == [i \in Dims |-> x[i] - y[i]]
Mul5(k, x) == [i \in Dims |-> k * x[i]]
Sq5(x) == x[1]*x[1] + x[2]*x[2] + x[3]*x[3] + x[4]*x[4] + x[5]*x[5]
Dot5(x, y) == x[1]*y[1] + x[2]*y[2] + x[3]*y[3] + x[4]*y[4] + x[5]*y[5]

\* largest n with n*n <= s
RECURSIVE SqrtIn(_, _, _)
SqrtIn(s, lo, hi) ==
  IF lo >= hi THEN lo
  ELSE LET m == (lo + hi + 1) \div 2 IN
       IF m * m <= s THEN SqrtIn(s, m, hi) ELSE SqrtIn(s, lo, m - 1)
ISqrt(s) == SqrtIn(s, 0, IF s < 46340 THEN s ELSE 46340)

VirginJ2 == [xp |-> Zero5, a |-> 0]
Radius(R0, H, m) == R0 + H * m.a
Trial(m, e) == Sub5(e.x, m.xp)
\* the trial deviator exceeds the current yield radius (compared as squares)
Exceeds(R0, H, m, e) == Sq5(Trial(m, e)) > Radius(R0, H, m) * Radius(R0, H, m)

Representable(R0, H, m, e) ==
  LET xi == Trial(m, e)
      n  == ISqrt(Sq5(xi))
      R  == Radius(R0, H, m)
  IN R >= 0 /\ (Exceeds(R0, H, m, e) =>
       /\ n * n = Sq5(xi)
       /\ \A i \in Dims : (xi[i] * R) % n = 0)

\* answer of a solved homogeneous cell: stress, reached state, did it yield
Return(R0, H, m, e) ==
  LET xi == Trial(m, e)
      R  == Radius(R0, H, m)
  IN IF ~Exceeds(R0, H, m, e)
     THEN [sig |-> [p |-> e.p, s |-> xi], next |-> m, yields |-> FALSE]
     ELSE LET n  == ISqrt(Sq5(xi))
              el == [i \in Dims |-> (xi[i] * R) \div n]
          IN [sig |-> [p |-> e.p, s |-> el],
              next |-> [xp |-> Sub5(e.x, el), a |-> m.a + (n - R)],
              yields |-> TRUE]

(* Derivative of the deviatoric stress coordinates with respect to the     *)
(* deviatoric strain coordinates (units 2*mu), times S, rounded towards    *)
(* minus infinity with an error below 3:                                   *)
(*   elastic: the identity;  plastic: (R/n)(I - xi xi^T / n^2).            *)
TangentS(R0, H, m, e, S, i, j) ==
  LET xi == Trial(m, e)
      R  == Radius(R0, H, m)
      n  == ISqrt(Sq5(xi))
      d  == IF i = j THEN 1 ELSE 0
      t  == d * n * n - xi[i] * xi[j]     \* n^2 (I - nn)
  IN IF ~Exceeds(R0, H, m, e) THEN d * S
     ELSE \* S * R * t / n^3, dividing early enough to stay below 2^31
          LET a1 == (t * 1000) \div n        \* 1000 t / n
              a2 == (a1 * R) \div n          \* 1000 R t / n^2
          IN (a2 * (S \div 1000)) \div n
=============================================================================
