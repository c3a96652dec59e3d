----------------------------- MODULE MemoTrace ------------------------------
(* Recorded executions against Memo: every object in every process.         *)
EXTENDS Memo, Json, IOUtils
VARIABLE l
Trace == ndJsonDeserialize(IOEnv.TRACE)
Ev == Trace[l]
tvars == <<tree, at, nodes, l>>
Step(ev) == l <= Len(Trace) /\ Ev.ev = ev /\ l' = l + 1
TInit == MmInit /\ l = 1
TNext == \/ Step("process") /\ MmProcess
         \/ Step("new") /\ MmNew(Ev.o, Ev.t, Ev.s)
         \/ Step("call") /\ MmCall(Ev.o, Ev.t, Ev.s)
         \/ Step("del") /\ MmDel(Ev.o)
TSpec == TInit /\ [][TNext]_tvars
TView == l
Accepted ==
  LET n == TLCGet("stats").diameter - 1 IN
  /\ PrintT("TRACE-POS " \o ToString(n) \o " OF " \o ToString(Len(Trace)))
  /\ n = Len(Trace)
=============================================================================
