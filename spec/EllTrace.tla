------------------------------ MODULE EllTrace ------------------------------
(* Recorded calls on structured matrices against the element-sum machine,   *)
(* and recorded solves against the protocol of an iterative solver.         *)
EXTENDS Ell, Solver, Json, IOUtils
VARIABLE l
tvars == <<g, K, bc, l>>
Trace == ndJsonDeserialize(IOEnv.TRACE)
Ev == Trace[l]
Step(ev) == l <= Len(Trace) /\ Ev.ev = ev /\ l' = l + 1
Same == UNCHANGED <<g, K, bc>>
TInit == EInit /\ l = 1
TNew == Step("init") /\ Init2(Ev.g) /\ Ev.nrow = NNode(Ev.g) * Ev.g.F /\ Ev.ncol = Ev.nrow
TZero == Step("zero") /\ Zero
TAdd == Step("add") /\ Add(Ev.e, Ev.A)
TBc == Step("bc") /\ Bc
TMvp == /\ Step("mvp") /\ Same /\ Ev.kept
        /\ Len(Ev.y) = NUnk
        /\ \A r \in Unk : Ev.y[r + 1] = Product(Ev.x, r)
TDense == /\ Step("dense") /\ Same
          /\ Len(Ev.cols) = NUnk
          /\ \A q \in Unk : Len(Ev.cols[q + 1]) = NUnk /\ \A r \in Unk : Ev.cols[q + 1][r + 1] = Column(q, r)

----------------------------------------------------------------------------
(* A solve.  tol is 1000 in the unit of err, res and res0: the reported     *)
(* error, the residual of the returned vector and of the start vector,      *)
(* measured with the recorder's exact arithmetic (capped), drift the        *)
(* rounding allowance.  xq is the answer in units of 1/S (small systems),   *)
(* with which the residual is formed again here; resq bounds it in units of *)
(* 1/S when the solver reports success.                                     *)
TSolve ==
  /\ Step("solve") /\ Same /\ bc
  /\ Ev.kept                       \* matrix, right-hand side and request
  /\ Reported(Ev)
  /\ (Ev.err < 1000 /\ Ev.S > 0) =>
        /\ Len(Ev.xq) = NUnk
        /\ \A r \in Unk :
             LET d == Product(Ev.xq, r) - Ev.S * Ev.b[r + 1]
             IN d <= Ev.resq /\ d >= -Ev.resq

TNext == TNew \/ TZero \/ TAdd \/ TBc \/ TMvp \/ TDense \/ TSolve
TSpec == TInit /\ [][TNext]_tvars
TView == l
Accepted ==
  LET n == TLCGet("stats").diameter - 1 IN
  /\ PrintT("TRACE-POS " \o ToString(n) \o " OF " \o ToString(Len(Trace)))
  /\ n = Len(Trace)
=============================================================================
