------------------------------- MODULE GenEll -------------------------------
(* Call sequences on one matrix: element matrices are named by numbers (the *)
(* recorder gives the numbers meaning), so K here only counts additions.    *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils
VARIABLES acts, bc
Opt == ndJsonDeserialize(IOEnv.OPTS)[1]
Do(a) == acts' = Append(acts, a)
Last == IF acts = << >> THEN [op |-> "Init"] ELSE acts[Len(acts)]
GInit == acts = << >> /\ bc = FALSE
GAdd == ~bc /\ \E e \in 0..Opt.nelem - 1, s \in 1..Opt.shapes : Do([op |-> "Add", e |-> e, s |-> s]) /\ UNCHANGED bc
\* fill: every element once, in the order of a permutation named by a number
GFill == ~bc /\ Last.op # "Fill" /\ \E p \in 1..4, s \in 1..Opt.shapes : Do([op |-> "Fill", p |-> p, s |-> s]) /\ UNCHANGED bc
GZero == /\ Last.op \notin {"Init", "Zero"} /\ Do([op |-> "Zero"]) /\ bc' = FALSE
GBc == /\ Last.op # "Init" /\ Do([op |-> "Bc"]) /\ bc' = TRUE
GMvp == \E v \in 1..3 : Do([op |-> "Mvp", v |-> v]) /\ UNCHANGED bc
GDense == Last.op # "Dense" /\ Do([op |-> "Dense"]) /\ UNCHANGED bc
GEnd == Len(acts) = Opt.depth /\ Do([op |-> "End"]) /\ UNCHANGED bc
GNext == (Len(acts) < Opt.depth /\ (GAdd \/ GFill \/ GZero \/ GBc \/ GMvp \/ GDense)) \/ GEnd
GSpec == GInit /\ [][GNext]_<<acts, bc>>
Emit == Last.op = "End" => PrintT(<<"BEH", ToJson(acts)>>)
=============================================================================
