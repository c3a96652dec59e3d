-------------------------------- MODULE Symm --------------------------------
(***************************************************************************)
(* Relabellings of the axes: signed permutations.  f = [p, s] takes axis a *)
(* to axis p[a], reversed when s[a] = -1.  Components of symmetric tensors *)
(* are listed xx yy zz xy xz yz (3D) or xx yy xy (2D).                     *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets
Axes(d) == 1..d
Perms(d) == { p \in [Axes(d) -> Axes(d)] : \A a, b \in Axes(d) : p[a] = p[b] => a = b }
Signs(d) == [Axes(d) -> {-1, 1}]
Frames(d) == { [p |-> p, s |-> s] : p \in Perms(d), s \in Signs(d) }
Pairs(d) == IF d = 2 THEN <<<<1, 1>>, <<2, 2>>, <<1, 2>>>>
            ELSE <<<<1, 1>>, <<2, 2>>, <<3, 3>>, <<1, 2>>, <<1, 3>>, <<2, 3>>>>
NV(d) == Len(Pairs(d))
\* position of a component, and where component i of the base frame is found
Place(d, a, b) == CHOOSE i \in 1..NV(d) : Pairs(d)[i] \in {<<a, b>>, <<b, a>>}
To(d, f, i) == Place(d, f.p[Pairs(d)[i][1]], f.p[Pairs(d)[i][2]])
Sg(d, f, i) == f.s[Pairs(d)[i][1]] * f.s[Pairs(d)[i][2]]
\* base-frame components of a tensor or tangent given in frame f
Pull(d, f, t) == [i \in 1..NV(d) |-> Sg(d, f, i) * t[To(d, f, i)]]
PullC(d, f, c) ==     \* row by row
  [k \in 1..NV(d) * NV(d) |->
     LET i == ((k - 1) \div NV(d)) + 1
         j == ((k - 1) % NV(d)) + 1
     IN Sg(d, f, i) * Sg(d, f, j) * c[(To(d, f, i) - 1) * NV(d) + To(d, f, j)]]
\* the same cell seen in frame f: what belongs to axis a belongs to axis p[a]
SameCell(d, f, base, seen) == \A a \in Axes(d) : seen[f.p[a]] = base[a]
\* relabellings under which the cell is the same cell: the inclusion is
\* centred; the layer lies across y
Allowed(d, micro) ==
  { f \in Frames(d) : micro = 0 \/ (f.p[2] = 2 /\ f.s[2] = 1) }
Compose(d, f, g) == [p |-> [a \in Axes(d) |-> g.p[f.p[a]]], s |-> [a \in Axes(d) |-> f.s[a] * g.s[f.p[a]]]]
Ident(d) == [p |-> [a \in Axes(d) |-> a], s |-> [a \in Axes(d) |-> 1]]
=============================================================================
