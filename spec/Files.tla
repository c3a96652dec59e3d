------------------------------- MODULE Files -------------------------------
(***************************************************************************)
(* The information files: what they contain after any history of calls.    *)
(* Each file is a header (written once, before the first record) and one   *)
(* record per write; a record has one entry per point in order of          *)
(* introduction.  Values are those the queries return at that moment; the  *)
(* stored variables are the committed ones.                                *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets
VARIABLES order,   \* identifiers in order of introduction
          pt,      \* identifier -> [e, he, sig, tan, nl, vars, open]
          old,     \* records written so far, as opaque tokens, per file
          wrote    \* number of writes
fvars == <<order, pt, old, wrote>>
Known == { order[i] : i \in 1..Len(order) }
NoStrain == << >>
\* he: strain of the latest homogenization; open: the stored variables may
\* have changed since they were last seen (an update happened)
NewPt(e) == [e |-> e, he |-> NoStrain, vars |-> << >>, open |-> FALSE, seen |-> FALSE]
FInit == order = << >> /\ pt = << >> /\ old = << >> /\ wrote = 0
FNew == order' = << >> /\ pt' = << >> /\ old' = <<<< >>, << >>, << >>>> /\ wrote' = 0
FSet(g, e) ==
  /\ IF g \in Known THEN pt' = [pt EXCEPT ![g].e = e] /\ UNCHANGED order
     ELSE order' = Append(order, g) /\ pt' = [h \in Known \cup {g} |-> IF h = g THEN NewPt(e) ELSE pt[h]]
  /\ UNCHANGED <<old, wrote>>
FHom == pt' = [h \in Known |-> [pt[h] EXCEPT !.he = pt[h].e]] /\ UNCHANGED <<order, old, wrote>>
FUpd == pt' = [h \in Known |-> [pt[h] EXCEPT !.open = TRUE]] /\ UNCHANGED <<order, old, wrote>>
IsPrefix(s, t) == Len(s) <= Len(t) /\ \A i \in 1..Len(s) : s[i] = t[i]
\* toks: the records of the three files as tokens, after a write
FWrite(toks, seen) ==
  /\ wrote' = wrote + 1
  /\ \A f \in 1..3 : Len(toks[f]) = wrote + 1 /\ IsPrefix(old[f], toks[f])
  /\ old' = toks
  /\ pt' = [h \in Known |-> [pt[h] EXCEPT !.vars = seen[h], !.open = FALSE, !.seen = TRUE]]
  /\ UNCHANGED order
=============================================================================
