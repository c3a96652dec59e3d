------------------------------ MODULE J2Trace ------------------------------
(***************************************************************************)
(* Recorded executions of cells that see the imposed strain everywhere,    *)
(* against Micropp with the exact J2 law.  Stresses are recorded in units  *)
(* of 1/S of the law's unit and summed over elements like the model's.     *)
(***************************************************************************)
EXTENDS MicroJ2, TLC, Json, IOUtils
VARIABLE l
Trace == ndJsonDeserialize(IOEnv.TRACE)
Cfg == Trace[1]
TraceMats == Trace[1].mats
TraceP2 == Trace[1].p2
Ev == Trace[l]
Abs(x) == IF x < 0 THEN -x ELSE x
NearI(a, b, tol) == Abs(a - b) <= tol
Step(ev) == l <= Len(Trace) /\ Ev.ev = ev /\ l' = l + 1
tvars == <<order, pt, rows, snaps, l>>
Same == UNCHANGED <<order, pt, rows, snaps>>

TInit == M!Init /\ l = 1
TCfg == Step("cfg") /\ Same
TNew == Step("new") /\ M!New
TSet == Step("set") /\ M!Set(Ev.g, [p |-> Ev.p, x |-> Ev.x])
\* the recorder only issues representable strains; anything else is its error
THom == Step("hom") /\ M!Homogenize
          /\ \A g \in M!Known : Assert(M!Shortcut(pt[g]) \/ J2Fits(pt[g].com, pt[g].e), "recorder: not representable")
TUpd == Step("upd") /\ M!Update

\* v: mean stress, five deviatoric coordinates (all in 1/S units)
TSig ==
  /\ Step("sig") /\ M!Query(Ev.g)
  /\ IF Ev.g \notin M!Known THEN Ev.none
     ELSE /\ ~Ev.none
          /\ NearI(Ev.v[1], Cfg.S * pt[Ev.g].sig.p, Cfg.tsig)
          /\ \A d \in Dims : NearI(Ev.v[1 + d], Cfg.S * pt[Ev.g].sig.s[d], Cfg.tsig)

TNlf ==
  /\ Step("nlf") /\ M!Query(Ev.g)
  /\ Ev.v = <<IF Ev.g \in M!Known /\ pt[Ev.g].nl THEN 1 ELSE 0>>

\* the trial touches the yield surface exactly
OnTheEdge(i, q) ==
  /\ Mats[i].plastic
  /\ Sq5(Trial(q.com[i], q.e)) = Radius(Mats[i].R0, Mats[i].H, q.com[i]) * Radius(Mats[i].R0, Mats[i].H, q.com[i])
\* tangent in the coordinates of the law: 1 + 5 rows and columns, row major, in
\* units of 1/ST; valid for the strain and state of the latest answer, so the
\* recorder reads it between homogenize and the next set/update
TTan ==
  /\ Step("tan") /\ M!Query(Ev.g) /\ Ev.g \in M!Known /\ ~Ev.none
  /\ LET q == pt[Ev.g]
         T(i, j) == Ev.v[6 * (i - 1) + j]
     IN /\ NearI(T(1, 1), Cfg.ST * SumMod(Len(Mats), "k"), Cfg.ttan)
        /\ \A d \in Dims : NearI(T(1, 1 + d), 0, Cfg.ttan)
        /\ \/ q.how = "solved" /\ \E i \in MIx : OnTheEdge(i, q)   \* one-sided: not decided
           \/ /\ \A d \in Dims : NearI(T(1 + d, 1), 0, Cfg.ttan)
              /\ \A i, j \in Dims :
                   NearI(T(1 + i, 1 + j),
                         IF q.how = "linear" THEN (IF i = j THEN Cfg.ST * SumMod(Len(Mats), "mu") ELSE 0)
                         ELSE TangentOf(q.com, q.e, Cfg.ST, i, j),
                         Cfg.ttan)

TWri == Step("wri") /\ M!Write
TOut == Step("out") /\ (IF Ev.g \in M!Known /\ J2Fits(pt[Ev.g].com, pt[Ev.g].e) THEN M!Output(Ev.g, Ev.ts) ELSE Same)
\* committed variables in the latest record: one entry per material with the
\* distinct values found at its integration points (volumetric part, five
\* coordinates, hardening, in 1/SV units)
TVar ==
  /\ Step("var") /\ Same
  /\ Ev.n = Len(order) /\ Ev.k \in 1..Len(order)
  /\ LET q == pt[order[Ev.k]] IN
     \A i \in MIx : \A j \in 1..Len(Ev.v[i]) :
        LET w == Ev.v[i][j]
            m == q.com[i]
        IN /\ Len(w) = 7
           /\ NearI(w[1], 0, Cfg.tvar)
           /\ \A d \in Dims : NearI(w[1 + d], Cfg.SV * m.xp[d], Cfg.tvar)
           /\ NearI(w[7], Cfg.SV * m.a, Cfg.tvar)

TNext == TCfg \/ TNew \/ TSet \/ THom \/ TUpd \/ TSig \/ TNlf \/ TTan \/ TWri \/ TOut \/ TVar
TSpec == TInit /\ [][TNext]_tvars
TView == l
Accepted ==
  LET n == TLCGet("stats").diameter - 1 IN
  /\ PrintT("TRACE-POS " \o ToString(n) \o " OF " \o ToString(Len(Trace)))
  /\ n = Len(Trace)
=============================================================================
