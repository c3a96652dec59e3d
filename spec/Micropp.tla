------------------------------ MODULE Micropp ------------------------------
(***************************************************************************)
(* The micropp object as its callers see it: a collection of Gauss points, *)
(* each with an imposed strain, a committed material state, the pending    *)
(* state of the latest homogenization and the latest answers; plus the     *)
(* files it writes.  One action per public call.                           *)
(*                                                                         *)
(* The material is a parameter: Respond(m, e) is what solving the cell     *)
(* with committed state m under strain e yields.  Two instances are used,  *)
(* SymLaw (the state is the list of committed strains, the answer a term:  *)
(* nothing is assumed about the material) and J2Law (exact J2 integers).   *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

CONSTANTS
  Respond(_, _),   \* [sig, next, yields]
  Linear(_),       \* stress given by the linear shortcut
  Below(_),        \* first invariant of the linear stress below the threshold
  Virgin,          \* material state of a new point
  NoSig            \* stress of a point that was never homogenized

VARIABLES
  order,           \* identifiers in order of introduction
  pt,              \* identifier -> point
  rows,            \* records of the information files, one per write
  snaps            \* snapshot files: <<id, step>> -> contents

vars == <<order, pt, rows, snaps>>

Known == { order[i] : i \in 1..Len(order) }

NewPoint(e) ==
  [e |-> e, com |-> Virgin, tri |-> Virgin, nl |-> FALSE,
   sig |-> NoSig, how |-> "none"]

\* the shortcut: never yielded and below the threshold
Shortcut(q) == ~q.nl /\ Below(q.e)

Homogenized(q) ==
  IF Shortcut(q)
  THEN [q EXCEPT !.sig = Linear(q.e), !.how = "linear"]
  ELSE LET r == Respond(q.com, q.e) IN
       [q EXCEPT !.sig = r.sig, !.how = "solved", !.tri = r.next,
                 !.nl = q.nl \/ r.yields]

\* only the pending state of the latest homogenization is committed, and a
\* point that never yielded has nothing to commit (its state stays Virgin:
\* for both laws an elastic answer leaves the observable state unchanged)
Updated(q) == [q EXCEPT !.com = q.tri]

\* one record of the information files
Record == [i \in 1..Len(order) |->
             LET q == pt[order[i]] IN
             [id |-> order[i], nl |-> q.nl, e |-> q.e, sig |-> q.sig,
              com |-> q.com, how |-> q.how]]

Init ==
  /\ order = <<>>
  /\ pt = << >>
  /\ rows = <<>>
  /\ snaps = << >>

\* a new object: nothing of an earlier one remains; the information files
\* are emptied, snapshots already on disk stay
New ==
  /\ order' = <<>>
  /\ pt' = << >>
  /\ rows' = <<>>
  /\ UNCHANGED snaps

Set(g, e) ==
  /\ IF g \in Known
     THEN /\ pt' = [pt EXCEPT ![g].e = e]
          /\ UNCHANGED order
     ELSE /\ order' = Append(order, g)
          /\ pt' = [h \in Known \cup {g} |-> IF h = g THEN NewPoint(e) ELSE pt[h]]
  /\ UNCHANGED <<rows, snaps>>

Homogenize ==
  /\ pt' = [h \in Known |-> Homogenized(pt[h])]
  /\ UNCHANGED <<order, rows, snaps>>

Update ==
  /\ pt' = [h \in Known |-> Updated(pt[h])]
  /\ UNCHANGED <<order, rows, snaps>>

\* reading stress, tangent or flag
Query(g) == UNCHANGED vars

Write ==
  /\ rows' = Append(rows, Record)
  /\ UNCHANGED <<order, pt, snaps>>

\* what a snapshot shows: the cell solved at the current strain with the
\* committed state (also for points below the threshold)
Shot(q) == [e |-> q.e, com |-> q.com, sig |-> Respond(q.com, q.e).sig]

Output(g, ts) ==
  /\ IF g \in Known
     THEN snaps' = [k \in DOMAIN snaps \cup {<<g, ts>>} |->
                      IF k = <<g, ts>> THEN Shot(pt[g]) ELSE snaps[k]]
     ELSE UNCHANGED snaps
  /\ UNCHANGED <<order, pt, rows>>

----------------------------------------------------------------------------
\* What is known about a point from its own calls alone: replaying the calls
\* that concern it (its strains, and every homogenize/update since it exists).
RECURSIVE Replay(_, _)
Replay(log, q) ==
  IF log = <<>> THEN q
  ELSE LET a == Head(log) IN
       Replay(Tail(log),
              CASE a.op = "Set" -> [q EXCEPT !.e = a.e]
                [] a.op = "Hom" -> Homogenized(q)
                [] a.op = "Upd" -> Updated(q))
=============================================================================
