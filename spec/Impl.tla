-------------------------------- MODULE Impl --------------------------------
(***************************************************************************)
(* How the object works inside: one pair of scratch arrays (old, new) and  *)
(* one solver shared by all points, points processed in a loop, internal   *)
(* variables of a point allocated when it first yields, the tangent found  *)
(* by solving again at perturbed strains, snapshots solved in the same     *)
(* scratch.  Every scratch array, and every fresh allocation, starts with  *)
(* junk.  ImplMC checks that this refines Micropp, the object its callers  *)
(* see, and that each of the mistakes named by Defect does not.            *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS Respond(_, _), Linear(_), Below(_), Virgin, NoSig,
          Junks,         \* what memory may hold: material states
          None,          \* a null pointer
          Strains, Ids,
          Perturbations, \* solves per tangent
          Defect         \* "" or the name of a mistake
VARIABLES base,          \* state in the scratch array when the linear tangent was found
          order, gp,     \* the list of points: identifier -> [e, n, k, sig, how]
          old, new, flag,\* scratch: variables read and written by the law, last flag
          pc, ix, cnt,   \* what is going on: stage, position in the list, counter
          todo,          \* <<id, step>> of the snapshot being made
          saved,         \* history: the points when the current call began
          rows, snaps
scratch == <<old, new, flag>>
ctl == <<pc, ix, cnt, todo, saved>>
ivars == <<base, order, gp, old, new, flag, pc, ix, cnt, todo, saved, rows, snaps>>

Known == { order[i] : i \in 1..Len(order) }
Idle == pc = "idle"
cur == order[ix]
Bug(d) == Defect = d

\* an object just built: the constructor has zeroed the scratch arrays and solved
\* for the linear tangent, which leaves something in new
Built(o, w) == /\ IF Bug("ctor-junk") THEN o \in Junks ELSE o = Virgin
               /\ w \in Junks
IInit ==
  /\ order = <<>> /\ gp = << >> /\ rows = <<>> /\ snaps = << >>
  /\ \E o, w \in Junks \cup {Virgin} : Built(o, w) /\ old = o /\ new = w /\ base = o
  /\ flag = FALSE /\ pc = "idle" /\ ix = 0 /\ cnt = 0 /\ todo = <<>> /\ saved = << >>
INew ==
  /\ Idle /\ order' = <<>> /\ gp' = << >> /\ rows' = <<>> /\ UNCHANGED snaps
  /\ \E o, w \in Junks \cup {Virgin} : Built(o, w) /\ old' = o /\ new' = w /\ base' = o
  /\ flag' = FALSE /\ saved' = << >> /\ UNCHANGED <<pc, ix, cnt, todo>>

ISet(g, e) ==
  /\ Idle /\ UNCHANGED <<base, rows, snaps>> /\ UNCHANGED scratch /\ UNCHANGED ctl
  /\ IF g \in Known
     THEN gp' = [gp EXCEPT ![g].e = e] /\ UNCHANGED order
     ELSE /\ order' = IF Bug("set-front") THEN <<g>> \o order ELSE Append(order, g)
          /\ gp' = [h \in Known \cup {g} |->
                      IF h = g
                      THEN [e |-> e, n |-> None, k |-> None, how |-> "none",
                            sig |-> IF Bug("stress-unset") THEN <<99, 99>> ELSE NoSig]
                      ELSE gp[h]]

IUpdate ==
  /\ Idle /\ UNCHANGED <<base, order, rows, snaps>> /\ UNCHANGED scratch /\ UNCHANGED ctl
  /\ gp' = [h \in Known |->
              IF gp[h].n = None THEN gp[h]
              ELSE [gp[h] EXCEPT !.n = IF Bug("update-scratch") THEN new ELSE gp[h].k,
                                 !.k = IF Bug("update-swap") THEN gp[h].n ELSE gp[h].k]]

Shown(q) == IF q.n = None THEN Virgin ELSE IF Bug("write-pending") THEN q.k ELSE q.n
IWrite ==
  /\ Idle /\ UNCHANGED <<base, order, gp, snaps>> /\ UNCHANGED scratch /\ UNCHANGED ctl
  /\ rows' = Append(rows, [i \in 1..Len(order) |->
                LET q == gp[order[i]] IN
                [id |-> order[i], nl |-> q.n # None, e |-> q.e, sig |-> q.sig,
                 com |-> Shown(q), how |-> q.how]])

----------------------------------------------------------------------------
\* homogenize: a call starts, then one point after the other
HStart ==
  /\ Idle /\ saved' = gp
  /\ IF order = <<>> THEN pc' = "idle" /\ ix' = 0 ELSE pc' = "load" /\ ix' = 1
  /\ UNCHANGED <<base, order, gp, cnt, todo, rows, snaps>> /\ UNCHANGED scratch

Load(q) ==
  IF q.n # None THEN old' = q.n
  ELSE IF Bug("load-virgin-skipped") THEN UNCHANGED old ELSE old' = Virgin
HLoad ==
  /\ pc = "load" /\ Load(gp[cur]) /\ pc' = "decide"
  /\ UNCHANGED <<base, order, gp, new, flag, ix, cnt, todo, saved, rows, snaps>>

GoOn == IF ix = Len(order) THEN pc' = "idle" /\ ix' = 0 ELSE pc' = "load" /\ ix' = ix + 1
HLinear ==
  /\ pc = "decide" /\ Below(gp[cur].e) /\ (gp[cur].n = None \/ Bug("shortcut-always"))
  /\ gp' = [gp EXCEPT ![cur].sig = IF base = Virgin THEN Linear(gp[cur].e) ELSE Respond(base, gp[cur].e).sig, ![cur].how = "linear"]
  /\ IF Bug("shortcut-returns") THEN pc' = "idle" /\ ix' = 0 ELSE GoOn
  /\ UNCHANGED <<base, order, cnt, todo, saved, rows, snaps>> /\ UNCHANGED scratch
HSolve ==
  /\ pc = "decide" /\ ~(Below(gp[cur].e) /\ (gp[cur].n = None \/ Bug("shortcut-always")))
  /\ pc' = "iterate"
  /\ UNCHANGED <<base, order, gp, ix, cnt, todo, saved, rows, snaps>> /\ UNCHANGED scratch

\* an iteration evaluates the law anywhere, writing new as it goes
HIterate ==
  /\ pc = "iterate"
  /\ \/ \E e \in Strains : new' = Respond(old, e).next
     \/ UNCHANGED new
  /\ IF Bug("iterate-old") THEN old' = new' ELSE UNCHANGED old
  /\ pc' = "average"
  /\ UNCHANGED <<base, order, gp, flag, ix, cnt, todo, saved, rows, snaps>>
HAverage ==
  /\ pc = "average"
  /\ LET r == Respond(old, gp[cur].e) IN
       /\ gp' = [gp EXCEPT ![cur].sig = r.sig, ![cur].how = "solved"]
       /\ new' = IF Bug("average-skips") THEN new ELSE r.next
       /\ flag' = IF Bug("flag-sticky") THEN flag \/ r.yields ELSE r.yields
  /\ pc' = "save" /\ UNCHANGED <<base, order, old, ix, cnt, todo, saved, rows, snaps>>
HSave ==
  /\ pc = "save"
  /\ \E j \in Junks :
       LET q == gp[cur]
           a == IF flag /\ q.n = None
                THEN [q EXCEPT !.n = IF Bug("alloc-junk") THEN j ELSE IF Bug("alloc-new") THEN new ELSE Virgin,
                               !.k = j]
                ELSE q
           w == IF a.k # None /\ ~Bug("save-late") /\ (flag \/ ~Bug("save-if-yields"))
                THEN [a EXCEPT !.k = new] ELSE a
       IN gp' = [gp EXCEPT ![cur] = w]
  /\ pc' = "tangent" /\ cnt' = Perturbations
  /\ UNCHANGED <<base, order, ix, todo, saved, rows, snaps>> /\ UNCHANGED scratch
HTangent ==
  /\ pc = "tangent" /\ cnt > 0 /\ cnt' = cnt - 1
  /\ \E e \in Strains :
       /\ new' = Respond(old, e).next /\ flag' = Respond(old, e).yields
       /\ gp' = IF Bug("tangent-saves") /\ gp[cur].k # None
                THEN [gp EXCEPT ![cur].k = Respond(old, e).next]
                ELSE IF Bug("tangent-stress") THEN [gp EXCEPT ![cur].sig = Respond(old, e).sig]
                ELSE gp
  /\ UNCHANGED <<base, order, old, pc, ix, todo, saved, rows, snaps>>
HDone ==
  /\ pc = "tangent" /\ cnt = 0
  /\ gp' = IF Bug("save-late") /\ gp[cur].k # None THEN [gp EXCEPT ![cur].k = new] ELSE gp
  /\ GoOn
  /\ UNCHANGED <<base, order, cnt, todo, saved, rows, snaps>> /\ UNCHANGED scratch

----------------------------------------------------------------------------
\* a snapshot: loaded, solved, written
OStart(g, ts) ==
  /\ Idle
  /\ IF g \in Known
     THEN /\ pc' = "oload" /\ todo' = <<g, ts>> /\ saved' = gp
     ELSE UNCHANGED <<pc, todo, saved>>
  /\ UNCHANGED <<base, order, gp, ix, cnt, rows, snaps>> /\ UNCHANGED scratch
OLoad ==
  /\ pc = "oload" /\ pc' = "oiterate"
  /\ IF Bug("output-pending") /\ gp[todo[1]].k # None THEN old' = gp[todo[1]].k
     ELSE IF Bug("output-unloaded") THEN UNCHANGED old
     ELSE old' = IF gp[todo[1]].n = None THEN Virgin ELSE gp[todo[1]].n
  /\ UNCHANGED <<base, order, gp, new, flag, ix, cnt, todo, saved, rows, snaps>>
OIterate ==
  /\ pc = "oiterate" /\ pc' = "oshot"
  /\ \E e \in Strains : new' = Respond(old, e).next
  /\ UNCHANGED <<base, order, gp, old, flag, ix, cnt, todo, saved, rows, snaps>>
OShot ==
  /\ pc = "oshot" /\ pc' = "idle"
  /\ LET q == gp[todo[1]]
         r == Respond(old, q.e)
         shot == [e |-> q.e, com |-> old, sig |-> r.sig]
     IN /\ snaps' = [x \in DOMAIN snaps \cup {todo} |-> IF x = todo THEN shot ELSE snaps[x]]
        /\ new' = r.next
        /\ gp' = IF Bug("output-saves") /\ q.n # None THEN [gp EXCEPT ![todo[1]].k = r.next] ELSE gp
  /\ todo' = <<>>
  /\ UNCHANGED <<base, order, old, flag, ix, cnt, saved, rows>>

Inside == HLoad \/ HLinear \/ HSolve \/ HIterate \/ HAverage \/ HSave \/ HTangent \/ HDone
            \/ OLoad \/ OIterate \/ OShot
----------------------------------------------------------------------------
\* what the callers see: while a call is under way, the object as it was
Seen == IF Idle THEN gp ELSE saved
AbsPt ==
  [h \in DOMAIN Seen |->
     LET q == Seen[h] IN
     [e |-> q.e, nl |-> q.n # None, sig |-> q.sig, how |-> q.how,
      com |-> IF q.n = None THEN Virgin ELSE q.n,
      tri |-> IF q.n = None THEN Virgin ELSE q.k]]
=============================================================================
