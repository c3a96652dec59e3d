------------------------------ MODULE SymTrace ------------------------------
(***************************************************************************)
(* Recorded executions against Micropp with an uninterpreted material.     *)
(*                                                                         *)
(* The specification state is driven by the recorded calls; every recorded *)
(* observation (stress, tangent, committed variables, snapshot) carries a  *)
(* symbolic key -- which committed history and strain it must depend on -- *)
(* and nothing else: two observations with equal keys, anywhere in the     *)
(* recording (other episodes, other points, other objects), must agree.    *)
(* So the recording is accepted iff some material law explains it.         *)
(***************************************************************************)
EXTENDS MicroSym, TLC, Json, IOUtils
VARIABLES l,      \* position in the trace
          memo,   \* key -> index of the event that first showed its value
          seen,   \* identifier -> answers that were computed for it
          flag,   \* identifier -> the last flag reported for it
          rose,   \* identifiers that yielded for the first time in the last call
          owed    \* identifiers whose committed variables cannot be zero
Trace == ndJsonDeserialize(IOEnv.TRACE)
tvars == <<order, pt, rows, snaps, l, memo, seen, flag, rose, owed>>
Ev == Trace[l]
Abs(x) == IF x < 0 THEN -x ELSE x
Near(u, v, tol) == Len(u) = Len(v) /\ \A i \in 1..Len(u) : Abs(u[i] - v[i]) <= tol

\* tolerances come with the recording (integer units); see DESIGN.md
Cfg == Trace[1]
Value(i) == Trace[i].v
Agrees(key, tol) ==
  IF key \in DOMAIN memo
  THEN Near(Value(memo[key]), Ev.v, tol) /\ UNCHANGED memo
  ELSE memo' = (key :> l) @@ memo

Step(ev) == l <= Len(Trace) /\ Ev.ev = ev /\ l' = l + 1
Keep == UNCHANGED <<memo, seen, flag, rose, owed>>

TInit == M!Init /\ l = 1 /\ memo = << >> /\ seen = << >> /\ flag = << >> /\ rose = {} /\ owed = {}

TCfg == Step("cfg") /\ UNCHANGED <<order, pt, rows, snaps>> /\ Keep
\* the same calls on a cell described in other units; what follows is recorded
\* in multiples of the unit chosen for it, and has to be explained by the same law
TUnits == Step("units") /\ UNCHANGED <<order, pt, rows, snaps>> /\ Keep
TNew == Step("new") /\ M!New /\ seen' = << >> /\ flag' = << >> /\ rose' = {} /\ owed' = {} /\ UNCHANGED memo
TSet == /\ Step("set") /\ M!Set(Ev.g, Ev.e)
        /\ seen' = IF Ev.g \in M!Known THEN seen ELSE (Ev.g :> {}) @@ seen
        /\ flag' = IF Ev.g \in M!Known THEN flag ELSE (Ev.g :> 0) @@ flag
        /\ UNCHANGED <<memo, rose, owed>>
THom == /\ Step("hom") /\ M!Homogenize
        /\ seen' = [g \in DOMAIN seen |-> seen[g] \cup {pt'[g].sig}]
        /\ rose' = {}
        /\ UNCHANGED <<memo, flag, owed>>
\* what a point reached when it yielded for the first time is stored: not nothing
TUpd == Step("upd") /\ M!Update /\ owed' = owed \cup rose /\ UNCHANGED <<memo, seen, flag, rose>>

\* stress: zero before the first homogenization, otherwise a function of the
\* answer's key; answering at the strain just committed repeats the stress
TSig ==
  /\ Step("sig") /\ M!Query(Ev.g)
  /\ IF Ev.g \notin M!Known THEN Ev.none /\ UNCHANGED memo
     ELSE /\ ~Ev.none
          /\ LET q == pt[Ev.g] IN
             IF q.how = "none" THEN (\A i \in 1..Len(Ev.v) : Ev.v[i] = 0) /\ UNCHANGED memo
             ELSE LET h == q.sig[1]
                      e == q.sig[2]
                      n == Len(h)
                      back == <<"sig", <<SubSeq(h, 1, n - 1), e>>>>
                  IN /\ Agrees(<<"sig", q.sig>>, Cfg.tsig)
                     /\ (n > 0 /\ h[n] = e /\ back \in DOMAIN memo)
                          => Near(Value(memo[back]), Ev.v, Cfg.tback)
  /\ UNCHANGED <<seen, flag, rose, owed>>
TTan ==
  /\ Step("tan") /\ M!Query(Ev.g)
  /\ IF Ev.g \notin M!Known THEN Ev.none /\ UNCHANGED memo
     ELSE /\ ~Ev.none
          /\ LET q == pt[Ev.g] IN
             IF q.how = "none" THEN (\A i \in 1..Len(Ev.v) : Ev.v[i] = 0) /\ UNCHANGED memo
             ELSE Agrees(<<"tan", q.sig>>, Cfg.ttan)
  /\ UNCHANGED <<seen, flag, rose, owed>>
\* the flag: a function of the set of answers computed so far; it latches
TNlf ==
  /\ Step("nlf") /\ M!Query(Ev.g)
  /\ IF Ev.g \notin M!Known THEN Ev.v = <<0>> /\ UNCHANGED <<memo, flag, rose>>
     ELSE /\ Ev.v \in {<<0>>, <<1>>}
          /\ Agrees(<<"nlf", seen[Ev.g]>>, 0)
          /\ Ev.v[1] >= flag[Ev.g]
          /\ flag' = [flag EXCEPT ![Ev.g] = Ev.v[1]]
          /\ rose' = IF Cfg.dense /\ Ev.v[1] > flag[Ev.g] THEN rose \cup {Ev.g} ELSE rose
  /\ UNCHANGED <<seen, owed>>
\* the information files: a record is appended
TWri == Step("wri") /\ M!Write /\ Keep
\* committed variables of one point as listed by the latest record
TVar ==
  /\ Step("var") /\ UNCHANGED <<order, pt, rows, snaps>>
  /\ Ev.k \in 1..Len(order) /\ Ev.n = Len(order)
  /\ Agrees(<<"var", pt[order[Ev.k]].com>>, Cfg.tvar)
  /\ order[Ev.k] \in owed => Ev.nz
  /\ UNCHANGED <<seen, flag, rose, owed>>
\* a snapshot: for known points the file appears with contents that depend on
\* committed history and strain only; for unknown ones nothing happens
TOut ==
  /\ Step("out") /\ M!Output(Ev.g, Ev.ts)
  /\ IF Ev.g \notin M!Known THEN ~Ev.file /\ UNCHANGED memo
     ELSE /\ Ev.file
          /\ IF Ev.v = <<>> THEN UNCHANGED memo
             ELSE Agrees(<<"shot", pt[Ev.g].com, pt[Ev.g].e>>, Cfg.tshot)
  /\ UNCHANGED <<seen, flag, rose, owed>>

TNext == TCfg \/ TUnits \/ TNew \/ TSet \/ THom \/ TUpd \/ TSig \/ TTan \/ TNlf \/ TWri \/ TVar \/ TOut
TSpec == TInit /\ [][TNext]_tvars
TView == l
Accepted ==
  LET n == TLCGet("stats").diameter - 1 IN
  /\ PrintT("TRACE-POS " \o ToString(n) \o " OF " \o ToString(Len(Trace)))
  /\ n = Len(Trace)
=============================================================================
