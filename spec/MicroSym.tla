------------------------------ MODULE MicroSym ------------------------------
(* Micropp with an uninterpreted material: a point's committed state is the *)
(* sequence of strains committed so far, an answer is the pair of that      *)
(* sequence and the strain.  Strains are names (integers).                  *)
EXTENDS Integers, Sequences, FiniteSets
VARIABLES order, pt, rows, snaps
SymRespond(h, e) == [sig |-> <<h, e>>, next |-> Append(h, e), yields |-> FALSE]
SymLinear(e) == <<"linear", e>>
SymBelow(e) == FALSE
M == INSTANCE Micropp WITH
       Respond <- SymRespond, Linear <- SymLinear, Below <- SymBelow,
       Virgin <- <<>>, NoSig <- <<"none", 0>>
=============================================================================
