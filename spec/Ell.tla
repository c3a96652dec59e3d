-------------------------------- MODULE Ell --------------------------------
(***************************************************************************)
(* The structured sparse matrix as its callers see it: a sum of element    *)
(* matrices scattered to the nodes of a grid, with or without boundary     *)
(* conditions.  Nothing of the storage format appears here.                *)
(*                                                                         *)
(* A grid is [dim, n, F]: nodes per direction and unknowns per node.  The  *)
(* state keeps for every element the sum of the matrices added to it.      *)
(* Unknown F*m + f (from 0) is field f of node m.                          *)
(***************************************************************************)
EXTENDS Fem, TLC
VARIABLES g, K, bc
evars == <<g, K, bc>>

\* the library's corner order
Corner == <<<<0,0,0>>, <<1,0,0>>, <<1,1,0>>, <<0,1,0>>, <<0,0,1>>, <<1,0,1>>, <<1,1,1>>, <<0,1,1>>>>
Npe == IF g.dim = 3 THEN 8 ELSE 4
NUnk == NNode(g) * g.F
Unk == 0..NUnk - 1
El == 0..NElem(g) - 1
NodeOf(r) == r \div g.F
NodeAtCorner(e, k) ==    \* node (from 0) at corner k of element e
  LET p == ElemAt(g, e) IN NodeIx(g, p[1] + Corner[k][1], p[2] + Corner[k][2], p[3] + Corner[k][3]) - 1
\* elements around a node, with the corner at which they have it
Around(m) == 
  LET p == NodeAt(g, m)
      Fits(k) == \A d \in Dirs(g) : p[d] - Corner[k][d] \in 0..(g.n[d] - 2)
      Ix(k) == LET z == p[3] - Corner[k][3] y == p[2] - Corner[k][2] x == p[1] - Corner[k][1]
               IN (IF g.dim = 3 THEN z * Ne(g, 1) * Ne(g, 2) ELSE 0) + y * Ne(g, 1) + x
  IN { <<Ix(k), k>> : k \in { j \in 1..Npe : Fits(j) } }
Fixed(r) == bc /\ OnBoundary(g, NodeOf(r))

Blank(gr) == << >>       \* no element has been added
ElMat(e) == K[e]
Has(e) == e \in DOMAIN K

EInit == g = << >> /\ K = << >> /\ bc = FALSE
Init2(gr) == g' = gr /\ K' = << >> /\ bc' = FALSE
Zero == K' = << >> /\ bc' = FALSE /\ UNCHANGED g
AddM(A, B) == TLCEval([i \in DOMAIN A |-> TLCEval([j \in DOMAIN A[i] |-> A[i][j] + B[i][j]])])
Add(e, A) ==
  /\ ~bc /\ e \in El
  /\ K' = [x \in DOMAIN K \cup {e} |-> IF x # e THEN K[x] ELSE IF Has(e) THEN AddM(K[e], A) ELSE A]
  /\ UNCHANGED <<g, bc>>
Bc == bc' = TRUE /\ UNCHANGED <<g, K>>

\* sum of Op over a finite set
SumOver(S, Op(_)) == FoldFunctionOnSet(+, 0, [x \in S |-> Op(x)], S)

Entry(r, q) ==
  IF Fixed(r) \/ Fixed(q) THEN (IF r = q THEN 1 ELSE 0)
  ELSE SumOver({ a \in Around(NodeOf(r)) : Has(a[1]) /\ \E k \in 1..Npe : NodeAtCorner(a[1], k) = NodeOf(q) },
          LAMBDA a : K[a[1]][(a[2] - 1) * g.F + (r % g.F) + 1]
                           [((CHOOSE k \in 1..Npe : NodeAtCorner(a[1], k) = NodeOf(q)) - 1) * g.F + (q % g.F) + 1])

\* product with a vector x (sequence of integers), component r
RowDot(e, i, x) ==
  LET row == K[e][i]
  IN FoldFunctionOnSet(+, 0, [j \in 1..Npe * g.F |->
        LET q == NodeAtCorner(e, ((j - 1) \div g.F) + 1) * g.F + ((j - 1) % g.F)
        IN IF Fixed(q) THEN 0 ELSE row[j] * x[q + 1]], 1..Npe * g.F)
Product(x, r) ==
  IF Fixed(r) THEN x[r + 1]
  ELSE SumOver({ a \in Around(NodeOf(r)) : Has(a[1]) },
               LAMBDA a : RowDot(a[1], (a[2] - 1) * g.F + (r % g.F) + 1, x))
\* a column of the matrix
Column(q, r) == Entry(r, q)
=============================================================================
