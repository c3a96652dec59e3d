----------------------------- MODULE HeapTrace ------------------------------
(* Recorded allocations against Heap.  An address or undefined-behaviour    *)
(* error ends a recording with a "crash" event, which no action explains.   *)
EXTENDS Heap, Json, IOUtils
VARIABLE l
Trace == ndJsonDeserialize(IOEnv.TRACE)
Ev == Trace[l]
tvars == <<held, points, yielded, fresh, l>>
Step(ev) == l <= Len(Trace) /\ Ev.ev = ev /\ l' = l + 1
SetOf(s) == { s[i] : i \in 1..Len(s) }
TInit == HInit /\ l = 1
TNext == \/ Step("process") /\ HProcess
         \/ Step("new") /\ HNew(Ev.o, Ev.k, Ev.d)
         \/ Step("set") /\ HSet(Ev.o, Ev.g, Ev.d)
         \/ Step("hom") /\ HHom(Ev.o, SetOf(Ev.ys), Ev.d)
         \/ Step("other") /\ HOther(Ev.o, Ev.d)
         \/ Step("del") /\ HDel(Ev.o, Ev.d)
TSpec == TInit /\ [][TNext]_tvars
TView == l
Accepted ==
  LET n == TLCGet("stats").diameter - 1 IN
  /\ PrintT("TRACE-POS " \o ToString(n) \o " OF " \o ToString(Len(Trace)))
  /\ n = Len(Trace)
=============================================================================
