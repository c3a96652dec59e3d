------------------------------- MODULE EllMC -------------------------------
(* Small grids, all call sequences up to a length: what follows from the    *)
(* element-sum machine.                                                     *)
EXTENDS Ell
CONSTANTS Grids, Shapes, MaxCalls
VARIABLES n, log
mvars == <<g, K, bc, n, log>>
\* element matrices by name: symmetric (1), unsymmetric (2)
ElM(s) == [i \in 1..Npe * g.F |-> [j \in 1..Npe * g.F |-> IF s = 1 THEN (IF i = j THEN 5 ELSE 0) - ((i + j) % 3) ELSE i - 2 * j]]
MInit == g \in Grids /\ K = << >> /\ bc = FALSE /\ n = 0 /\ log = << >>
MNext == /\ n < MaxCalls /\ n' = n + 1
         /\ \/ Zero /\ log' = << >>
            \/ \E e \in El, s \in Shapes : Add(e, ElM(s)) /\ log' = Append(log, <<e, s>>)
            \/ Bc /\ UNCHANGED log
MSpec == MInit /\ [][MNext]_mvars
\* the matrix is the sum of what was added since the last reset, in any order
Direct(r, q) ==
  FoldFunctionOnSet(+, 0, [t \in 1..Len(log) |->
     LET e == log[t][1] s == log[t][2]
     IN SumOver({ <<k, l>> \in (1..Npe) \X (1..Npe) : NodeAtCorner(e, k) = NodeOf(r) /\ NodeAtCorner(e, l) = NodeOf(q) },
          LAMBDA p : ElM(s)[(p[1] - 1) * g.F + (r % g.F) + 1][(p[2] - 1) * g.F + (q % g.F) + 1])], 1..Len(log))
Sum == ~bc => \A r, q \in Unk : Entry(r, q) = Direct(r, q)
Isolated == bc => \A r \in Unk : OnBoundary(g, NodeOf(r)) =>
              \A q \in Unk : Entry(r, q) = (IF r = q THEN 1 ELSE 0) /\ Entry(q, r) = (IF r = q THEN 1 ELSE 0)
Interior == bc => \A r, q \in Unk : ~OnBoundary(g, NodeOf(r)) /\ ~OnBoundary(g, NodeOf(q)) => Entry(r, q) = Direct(r, q)
Symmetric == (\A t \in 1..Len(log) : log[t][2] = 1) => \A r, q \in Unk : Entry(r, q) = Entry(q, r)
Vec == [i \in 1..NUnk |-> ((7 * i) % 11) - 5]
Products == \A r \in Unk : Product(Vec, r) = FoldFunctionOnSet(+, 0, [q \in Unk |-> Entry(r, q) * Vec[q + 1]], Unk)
Stencil == \A m \in 0..NNode(g) - 1 : Around(m) = { <<e, k>> \in El \X (1..Npe) : NodeAtCorner(e, k) = m }
GridsQ == { [dim |-> 2, n |-> <<2, 3, 1>>, F |-> 2], [dim |-> 2, n |-> <<3, 3, 1>>, F |-> 1], [dim |-> 3, n |-> <<2, 2, 3>>, F |-> 1] }
GridsT == GridsQ \cup { [dim |-> 3, n |-> <<3, 3, 3>>, F |-> 1], [dim |-> 2, n |-> <<3, 4, 1>>, F |-> 2] }
=============================================================================
