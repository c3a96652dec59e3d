------------------------------ MODULE MicroMC ------------------------------
(***************************************************************************)
(* Exhaustive check of the design: every sequence of calls up to MaxCalls  *)
(* on the given identifiers and strains, with the exact J2 material.       *)
(***************************************************************************)
EXTENDS MicroJ2, TLC
CONSTANTS Ids, Ks, Ps, Dir, MaxCalls, Watch
VARIABLES log,    \* identifier -> the calls that concern it, as recorded
          calls   \* number of calls made
mvars == <<order, pt, rows, snaps, log, calls>>

Strains == { [p |-> p, x |-> Mul5(k, Dir)] : p \in Ps, k \in Ks }

MCMats1 == << [mu |-> 1, k |-> 1, R0 |-> 10, H |-> 2, n |-> 1, plastic |-> TRUE] >>
MCMats2 == << [mu |-> 1, k |-> 1, R0 |-> 10, H |-> 2, n |-> 1, plastic |-> TRUE],
              [mu |-> 2, k |-> 3, R0 |-> 15, H |-> 0, n |-> 2, plastic |-> TRUE] >>
MCDir == <<3, 4, 0, 0, 0>>
MCKs == {-4, 1, 3}
MCPs0 == {0}
MCPs == {0, 2}

\* first strain, then everything that concerns the point
Note(g, a) == log' = [h \in DOMAIN log |-> IF h = g THEN Append(log[h], a) ELSE log[h]]
NoteAll(a) == log' = [h \in DOMAIN log |-> Append(log[h], a)]
One == calls' = calls + 1

MInit == M!Init /\ log = << >> /\ calls = 0
MNew == M!New /\ log' = << >> /\ One /\ calls > 0
MSet == \E g \in Ids, e \in Strains :
          /\ M!Set(g, e)
          /\ IF g \in M!Known THEN Note(g, [op |-> "Set", e |-> e])
             ELSE log' = (g :> <<e>>) @@ log
          /\ One
MHom == /\ \A g \in M!Known : J2Fits(pt[g].com, pt[g].e)
        /\ M!Homogenize /\ NoteAll([op |-> "Hom"]) /\ One
MUpd == M!Update /\ NoteAll([op |-> "Upd"]) /\ One
MWri == Watch /\ M!Write /\ UNCHANGED log /\ One
MOut == /\ Watch
        /\ \E g \in Ids : /\ g \in M!Known => J2Fits(pt[g].com, pt[g].e)
                          /\ M!Output(g, 0)
        /\ UNCHANGED log /\ One
MNext == calls < MaxCalls /\ (MSet \/ MHom \/ MUpd \/ MWri \/ MOut \/ MNew)
MSpec == MInit /\ [][MNext]_mvars

----------------------------------------------------------------------------
\* C02, C03: a point is what its own calls make of it
Independence ==
  \A g \in M!Known : pt[g] = M!Replay(Tail(log[g]), M!NewPoint(Head(log[g])))
OrderOnce == \A i, j \in 1..Len(order) : order[i] = order[j] => i = j

\* C01: repeating changes nothing, re-answering the committed strain repeats
Idempotent ==
  \A g \in M!Known :
    LET q == pt[g] IN
    /\ M!Updated(M!Updated(q)) = M!Updated(q)
    /\ J2Fits(q.com, q.e) =>
         LET h == M!Homogenized(q) IN
         /\ h.how = "solved" => M!Homogenized(h) = h
         /\ h.how = "solved" /\ h.nl =>
              LET u == M!Updated(h) IN J2Fits(u.com, u.e) /\ M!Homogenized(u).sig = h.sig

\* C04: whatever strain comes next, the answer of material i is admissible, the
\* pending state keeps the law's bookkeeping: hardening grows by the length of
\* the plastic flow, which is along the returned deviator
Law ==
  \A g \in M!Known : \A i \in MIx : \A e \in Strains :
    LET m == pt[g].com
        r == RespM(i, m, e)
        R == Radius(Mats[i].R0, Mats[i].H, m[i])
        flow == Sub5(r.next.xp, m[i].xp)
        da == r.next.a - m[i].a
    IN (Mats[i].plastic /\ J2Fits(m, e)) =>
         /\ Sq5(r.sig.s) <= R * R
         /\ r.sig.p = e.p
         /\ r.yields <=> da > 0
         /\ da >= 0
         /\ ~r.yields => r.next = m[i] /\ r.sig.s = Trial(m[i], e)
         /\ r.yields => Sq5(r.sig.s) = R * R
         /\ Sq5(flow) = da * da
         /\ Dot5(flow, r.sig.s) >= 0
         /\ Dot5(flow, r.sig.s) * Dot5(flow, r.sig.s) = Sq5(flow) * Sq5(r.sig.s)
         /\ Add5(r.sig.s, r.next.xp) = e.x
\* a point that never yielded carries no history
VirginUntilYield ==
  \A g \in M!Known : pt[g].nl \/ (pt[g].com = J2Virgin /\ pt[g].tri = J2Virgin)
TypeOK ==
  /\ DOMAIN pt = M!Known /\ DOMAIN log = M!Known
  /\ \A g \in M!Known : pt[g].how \in {"none", "linear", "solved"} /\ pt[g].e \in Strains

\* C05: the flag is the disjunction over all solved answers of the point
RECURSIVE EverYields(_, _)
EverYields(lg, q) ==
  IF lg = <<>> THEN FALSE
  ELSE LET a == Head(lg) IN
       CASE a.op = "Set" -> EverYields(Tail(lg), [q EXCEPT !.e = a.e])
         [] a.op = "Upd" -> EverYields(Tail(lg), M!Updated(q))
         [] a.op = "Hom" -> \/ (~M!Shortcut(q) /\ J2Respond(q.com, q.e).yields)
                            \/ EverYields(Tail(lg), M!Homogenized(q))
FlagExact == \A g \in M!Known : pt[g].nl = EverYields(Tail(log[g]), M!NewPoint(Head(log[g])))

\* C06: a shortcut answer is elastic, and only virgin points take it
ShortcutElastic ==
  \A g \in M!Known : pt[g].how = "linear" =>
     /\ ~pt[g].nl /\ pt[g].com = J2Virgin /\ P2 > 0

\* C07: tangent columns are differences of the law, exact in elastic states
TangentElastic ==
  \A g \in M!Known :
    LET q == pt[g] IN
    (J2Fits(q.com, q.e) /\ ~J2Respond(q.com, q.e).yields) =>
      \A i, j \in Dims : TangentOf(q.com, q.e, 1000, i, j)
                           = IF i = j THEN 1000 * SumMod(Len(Mats), "mu") ELSE 0

\* C16: records are appended, never changed (action property)
RowsFaithful ==
  \A i \in 1..Len(rows) : \A j \in 1..Len(rows[i]) :
     LET r == rows[i][j] IN
     /\ r.id = order[j]
     /\ r.how = "none" => r.sig = M!NewPoint(r.e).sig
     /\ ~r.nl => r.com = J2Virgin
RowsAppendOnly == [][rows' = <<>> \/ (Len(rows') >= Len(rows) /\ SubSeq(rows', 1, Len(rows)) = rows)]_mvars
\* C01/C03: committed state changes only in Update or New
CommitOnlyByUpdate ==
  [][\A g \in M!Known : g \in DOMAIN pt' /\ pt'[g].com # pt[g].com => pt'[g].com = pt[g].tri]_mvars
FlagLatches == [][\A g \in M!Known : g \in DOMAIN pt' /\ calls' = calls + 1 /\ order' # <<>> => (pt[g].nl => pt'[g].nl)]_mvars
=============================================================================
