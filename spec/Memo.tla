-------------------------------- MODULE Memo --------------------------------
(***************************************************************************)
(* What determines what a caller sees: an object's answers are a function  *)
(* of the arguments it was constructed with and of the calls made on it    *)
(* since.  The history of an object is a node of the tree of all histories *)
(* met so far; `tree` maps a node and a call to the node after it and to   *)
(* what that call showed.  Processes, interfaces, other objects and the    *)
(* contents of fresh memory do not occur, so they cannot matter.           *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC
VARIABLES tree,    \* <<node, call>> -> [to |-> node, saw |-> observation]
          at,      \* object -> node
          nodes    \* number of nodes
mmvars == <<tree, at, nodes>>
Root == 0
MmInit == tree = << >> /\ at = << >> /\ nodes = 0
\* a fresh process has no objects; what was learnt stays
MmProcess == at' = << >> /\ UNCHANGED <<tree, nodes>>
\* from node n, call t showed s; the object is o
MmStep(o, n, t, s) ==
  IF <<n, t>> \in DOMAIN tree
  THEN /\ tree[<<n, t>>].saw = s
       /\ at' = (o :> tree[<<n, t>>].to) @@ at
       /\ UNCHANGED <<tree, nodes>>
  ELSE /\ nodes' = nodes + 1
       /\ tree' = (<<n, t>> :> [to |-> nodes + 1, saw |-> s]) @@ tree
       /\ at' = (o :> nodes + 1) @@ at
MmNew(o, t, s) == MmStep(o, Root, t, s)
MmCall(o, t, s) == o \in DOMAIN at /\ MmStep(o, at[o], t, s)
MmDel(o) == at' = [p \in DOMAIN at \ {o} |-> at[p]] /\ UNCHANGED <<tree, nodes>>
=============================================================================
