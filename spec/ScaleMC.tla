------------------------------ MODULE ScaleMC ------------------------------
(***************************************************************************)
(* Nothing in the specification has a preferred unit.  Two machines make   *)
(* the same calls, one in the given units and one with lengths, moduli and *)
(* strains multiplied by fL, fE, fe (and with them inclusion size, yield   *)
(* stress and threshold): same materials at the same elements, same flags, *)
(* same way of being answered, and answers that differ by the factors.     *)
(***************************************************************************)
EXTENDS Fem, J2, TLC
CONSTANTS Fl, Fe, Fs, Depth
VARIABLES f,         \* factors <<lengths, moduli, strains>>
          m1, m2,    \* committed states
          t1, t2,    \* pending states
          n1, n2,    \* flags
          e,         \* imposed strain (of the first machine)
          g1, g2,    \* latest answers
          k          \* calls
svars == <<f, m1, m2, t1, t2, n1, n2, e, g1, g2, k>>
R0 == 10
H == 2
P2 == 3
SFl == {1, 2, 3}
SFe == {1, 5}
SFs == {1, 2, 4}
Dirs5 == { <<3, 4, 0, 0, 0>>, <<0, 0, 5, 0, 0>> }
Str == { [p |-> p, x |-> Mul5(j, d)] : p \in {0, 1, -2}, j \in {0, 1, 3, -4}, d \in Dirs5 }
Times(a, s) == [p |-> a * s.p, x |-> Mul5(a, s.x)]
Below(s, p2) == 2 * (IF s.p < 0 THEN -s.p ELSE s.p) < p2
Ans(r0, p2, E, m, nl, s) ==
  IF ~nl /\ Below(s, p2)
  THEN [how |-> "linear", next |-> m, yields |-> FALSE, sp |-> E * s.p, ss |-> Mul5(E, s.x)]
  ELSE LET r == Return(r0, H, m, s) IN
       [how |-> "solved", next |-> r.next, yields |-> r.yields, sp |-> E * r.sig.p, ss |-> Mul5(E, r.sig.s)]
None == [how |-> "none", next |-> VirginJ2, yields |-> FALSE, sp |-> 0, ss |-> Zero5]
SInit ==
  /\ f \in Fl \X Fe \X Fs
  /\ m1 = VirginJ2 /\ m2 = VirginJ2 /\ t1 = VirginJ2 /\ t2 = VirginJ2
  /\ n1 = FALSE /\ n2 = FALSE /\ e = [p |-> 0, x |-> Zero5] /\ g1 = None /\ g2 = None /\ k = 0
SSet == e' \in Str /\ UNCHANGED <<m1, m2, t1, t2, n1, n2, g1, g2>>
SHom ==
  /\ Representable(R0, H, m1, e)
  /\ g1' = Ans(R0, P2, 1, m1, n1, e)
  /\ g2' = Ans(f[3] * R0, f[3] * P2, f[2], m2, n2, Times(f[3], e))
  /\ t1' = (IF g1'.how = "linear" THEN t1 ELSE g1'.next)
  /\ t2' = (IF g2'.how = "linear" THEN t2 ELSE g2'.next)
  /\ n1' = (n1 \/ g1'.yields) /\ n2' = (n2 \/ g2'.yields)
  /\ UNCHANGED <<m1, m2, e>>
SUpd == m1' = t1 /\ m2' = t2 /\ UNCHANGED <<t1, t2, n1, n2, e, g1, g2>>
SNext == k < Depth /\ k' = k + 1 /\ UNCHANGED f /\ (SSet \/ SHom \/ SUpd)
SSpec == SInit /\ [][SNext]_svars

SameState ==
  /\ m2.xp = Mul5(f[3], m1.xp) /\ m2.a = f[3] * m1.a
  /\ t2.xp = Mul5(f[3], t1.xp) /\ t2.a = f[3] * t1.a
SameFlag == n1 = n2 /\ g1.how = g2.how /\ g1.yields = g2.yields
SameAnswer == g2.sp = f[2] * f[3] * g1.sp /\ g2.ss = Mul5(f[2] * f[3], g1.ss)
\* geometry: element materials, and strains of a displacement field
Cells == { [dim |-> 3, n |-> <<4, 3, 3>>, h |-> <<1, 2, 1>>, micro |-> mi, w |-> w, wden |-> 2, mats |-> <<>>] :
             mi \in {0, 1}, w \in {1, 7, 13, 21} }
Larger(c, a) == [c EXCEPT !.h = [d \in 1..3 |-> a * c.h[d]], !.w = IF c.micro = 0 THEN a * a * c.w ELSE a * c.w]
SameGeometry ==
  k = 0 => \A c \in Cells : \A el \in 0..NElem(c) - 1 :
    ElemMat(c, ElemAt(c, el)) = ElemMat(Larger(c, f[1]), ElemAt(c, el))
=============================================================================
