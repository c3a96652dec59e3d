------------------------------- MODULE FemMC -------------------------------
(* The integer mechanics itself: on every small grid and several spacings,  *)
(* an affine displacement has the imposed strain at every integration point *)
(* and no interior node carries a force (patch test); rigid rotations cause *)
(* no strain; a displaced interior node is pulled back (the force does work *)
(* against the displacement).                                               *)
EXTENDS Fem, TLC
CONSTANTS Sizes2, Sizes3
VARIABLE cell, e
Hs == {<<1,1,1>>, <<1,2,3>>, <<3,1,2>>}
M1 == <<[lam |-> 2, mu |-> 3], [lam |-> 7, mu |-> 1]>>
Cells == { [dim |-> 3, n |-> n, h |-> h, micro |-> 1, w |-> 1, wden |-> 2, mats |-> M1] : n \in Sizes3, h \in Hs }
   \cup  { [dim |-> 2, n |-> n, h |-> h, micro |-> 1, w |-> 1, wden |-> 2, mats |-> M1] : n \in Sizes2, h \in Hs }
Es(c) == IF c.dim = 3 THEN {<<1,0,0,0,0,0>>, <<0,0,0,0,2,0>>, <<3,-2,1,4,-2,6>>}
         ELSE {<<1,0,0>>, <<2,-3,4>>}
K == 1000
U(c, ee) == [m \in 1..NNode(c) |-> [i \in 1..3 |-> IF i <= c.dim THEN K * Affine2(c, ee, NodeAt(c, m - 1), i) ELSE 0]]
Init == cell \in Cells /\ e \in Es(cell)
Next == FALSE /\ UNCHANGED <<cell, e>>
Spec == Init /\ [][Next]_<<cell, e>>
Els(c) == { ElemAt(c, k) : k \in 0..NElem(c) - 1 }
Inner(c) == { m \in 0..NNode(c) - 1 : ~OnBoundary(c, m) }
Patch ==
  LET u == U(cell, e)
      S(el, s) == LET t == StressOf(cell, cell.mats[1], StrainGp(cell, u, el, s)) IN [v \in 1..NVoi(cell) |-> t[v] \div 10]
  IN /\ \A el \in Els(cell) : \A s \in Bits(cell) :
          \A v \in 1..NVoi(cell) :
            LET x == StrainGp(cell, u, el, s)[v] IN
            Ab(x - 10 * Vol(cell) * 2 * K * e[v]) <= 40 * Vol(cell) + (20 * K * Vol(cell)) \div 1000
     /\ \A el \in Els(cell) : \A v \in 1..NVoi(cell) :
            StrainMean(cell, u, el)[v] = 10 * Vol(cell) * 2 * K * e[v]
     /\ \A m \in Inner(cell) : \A i \in Dirs(cell) :
            Ab(ForceAt(cell, S, NodeAt(cell, m), i)) <= 40000
\* the force at an interior node moved by +1 in direction i points along i
Pulled ==
  \A m \in Inner(cell) : \A i \in Dirs(cell) :
    LET u == [k \in 1..NNode(cell) |-> IF k = m + 1 THEN [j \in 1..3 |-> IF j = i THEN 1000 ELSE 0] ELSE <<0, 0, 0>>]
        S(el, s) == StressOf(cell, cell.mats[1], StrainGp(cell, u, el, s))
    IN ForceAt(cell, S, NodeAt(cell, m), i) > 0
Numbering ==
  /\ \A k \in 0..NElem(cell) - 1 : LET x == ElemAt(cell, k) IN \A d \in Dirs(cell) : x[d] \in 0..Ne(cell, d) - 1
  /\ Cardinality(Els(cell)) = NElem(cell)
  /\ \A m \in 0..NNode(cell) - 1 : LET p == NodeAt(cell, m) IN NodeIx(cell, p[1], p[2], p[3]) = m + 1
  /\ Cardinality({GpBits(g) : g \in 0..7}) = 8
FSizes2 == {<<2,2,1>>, <<3,3,1>>, <<4,3,1>>}
FSizes3 == {<<2,2,2>>, <<3,3,3>>, <<3,4,3>>}
=============================================================================
