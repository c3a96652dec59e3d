----------------------------- MODULE SymmTrace ------------------------------
(* Recordings of relabelled cells: in base-frame components all of them     *)
(* show one and the same simulation (Micropp with an uninterpreted          *)
(* material: the answer is a function of committed history and strain).     *)
EXTENDS MicroSym, Symm, TLC, Json, IOUtils
VARIABLES l, frame, memo
Trace == ndJsonDeserialize(IOEnv.TRACE)
tvars == <<order, pt, rows, snaps, l, frame, memo>>
Ev == Trace[l]
Cfg == Trace[1]
D == Cfg.dim
Step(ev) == l <= Len(Trace) /\ Ev.ev = ev /\ l' = l + 1
Abs(x) == IF x < 0 THEN -x ELSE x
Near(u, v, tol) == Len(u) = Len(v) /\ \A i \in 1..Len(u) : Abs(u[i] - v[i]) <= tol
Agrees(key, v, tol) ==
  IF key \in DOMAIN memo THEN Near(memo[key], v, tol) /\ UNCHANGED memo
  ELSE memo' = (key :> v) @@ memo
SameM == UNCHANGED <<order, pt, rows, snaps>>
TInit == M!Init /\ l = 1 /\ frame = << >> /\ memo = << >>
TCfg == Step("cfg") /\ SameM /\ UNCHANGED <<frame, memo>>
TNew == /\ Step("new") /\ M!New /\ UNCHANGED memo
        /\ frame' = [p |-> Ev.p, s |-> Ev.s]
        /\ frame' \in Allowed(D, Cfg.micro)
        /\ SameCell(D, frame', Cfg.size, Ev.size) /\ SameCell(D, frame', Cfg.len, Ev.len)
TSet == Step("set") /\ M!Set(Ev.g, Pull(D, frame, Ev.e)) /\ UNCHANGED <<frame, memo>>
THom == Step("hom") /\ M!Homogenize /\ UNCHANGED <<frame, memo>>
TUpd == Step("upd") /\ M!Update /\ UNCHANGED <<frame, memo>>
TSig == /\ Step("sig") /\ SameM /\ UNCHANGED frame
        /\ Len(Ev.v) = NV(D)
        /\ Agrees(<<"sig", pt[Ev.g].sig>>, Pull(D, frame, Ev.v), Cfg.tsig)
TTan == /\ Step("tan") /\ SameM /\ UNCHANGED frame
        /\ Len(Ev.v) = NV(D) * NV(D)
        /\ Agrees(<<"tan", pt[Ev.g].sig>>, PullC(D, frame, Ev.v), Cfg.ttan)
TNlf == /\ Step("nlf") /\ SameM /\ UNCHANGED frame
        /\ Agrees(<<"nlf", Ev.b, Ev.k>>, Ev.v, 0)
\* how many elements carry each material, and total hardening
TAll == /\ Step("all") /\ SameM /\ UNCHANGED frame
        /\ Agrees(<<"all", pt[Ev.g].com, pt[Ev.g].e>>, Ev.v, Cfg.tall)
TNext == TCfg \/ TNew \/ TSet \/ THom \/ TUpd \/ TSig \/ TTan \/ TNlf \/ TAll
TSpec == TInit /\ [][TNext]_tvars
TView == l
Accepted ==
  LET n == TLCGet("stats").diameter - 1 IN
  /\ PrintT("TRACE-POS " \o ToString(n) \o " OF " \o ToString(Len(Trace)))
  /\ n = Len(Trace)
=============================================================================
