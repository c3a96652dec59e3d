----------------------------- MODULE FilesTrace -----------------------------
(* Recorded information files against Files.                                *)
EXTENDS Files, Functions, TLC, Json, IOUtils
VARIABLES l, c, solves
Trace == ndJsonDeserialize(IOEnv.TRACE)
Ev == Trace[l]
tvars == <<order, pt, old, wrote, l, c, solves>>
Abs(x) == IF x < 0 THEN -x ELSE x
Near(a, b, t) == Abs(a - b) <= t
Step(ev) == l <= Len(Trace) /\ Ev.ev = ev /\ l' = l + 1
Keep == UNCHANGED <<c, solves>>
V == 1..c.nvoi
Total(s) == FoldFunctionOnSet(+, 0, s, DOMAIN s)
NearSeq(a, b, t) == Len(a) = Len(b) /\ \A i \in 1..Len(a) : Near(a[i], b[i], t)

TInit == FInit /\ l = 1 /\ c = << >> /\ solves = 0
TCfg == Step("cfg") /\ c' = Ev.c /\ UNCHANGED <<order, pt, old, wrote, solves>>
\* construction empties the files
TNew == Step("new") /\ FNew /\ UNCHANGED c /\ solves' = 0 /\ Ev.sizes = <<0, 0, 0>>
TSet == Step("set") /\ FSet(Ev.g, Ev.e) /\ Keep
THom == Step("hom") /\ FHom /\ UNCHANGED c /\ solves' = Ev.solves
TUpd == Step("upd") /\ FUpd /\ Keep
TOther == Step("other") /\ UNCHANGED <<order, pt, old, wrote>> /\ Keep

\* first invariant of the linear stress, a tenth
Dot(r, e) == Total([j \in V |-> r[j] * e[j]])
Inv(e) == Total([i \in 1..c.dim |-> Dot(c.C[i], e) \div 10])
AbsSum(e) == Total([j \in V |-> Abs(e[j])])
Pad(s, n) == [i \in 1..n |-> IF i <= Len(s) THEN s[i] ELSE 0]

(* A write: ids and queries now (q), tokens and parsed last records.        *)
TWri ==
  /\ Step("wri") /\ Keep
  /\ FWrite(Ev.toks, [h \in Known |-> Ev.var[CHOOSE i \in 1..Len(order) : order[i] = h]])
  /\ Ev.heads = <<1, 1>>                       \* headers, once and first
  /\ wrote = 0 => Ev.ids = <<order, order>>    \* naming the points of the first record
  /\ Len(Ev.conv) = Len(order) /\ Len(Ev.esc) = Len(order) /\ Len(Ev.var) = Len(order)
  /\ \A i \in 1..Len(order) :
       LET p == pt[order[i]]
           qy == Ev.q[i]
           r == Ev.conv[i]
           s == Ev.esc[i]
       IN /\ r.nl = qy.nl
          /\ IF p.he = NoStrain THEN r.inv = -100000000 /\ r.its = 0
             ELSE Near(r.inv, Abs(Inv(p.he)), AbsSum(p.he) + 20)
          /\ Len(s) = 48
          /\ \A k \in 1..6 : Near(s[k], IF k <= c.nvoi THEN 1000 * p.e[k] ELSE 0, 2)
          /\ \A k \in 1..6 : Near(s[6 + k], IF k <= c.nvoi THEN qy.sig[k] ELSE 0, 2)
          /\ \A k \in 1..36 : Near(s[12 + k], IF k <= c.nvoi * c.nvoi THEN qy.tan[k] ELSE 0, 2)
          \* stored variables: as many as there are, unchanged without an update,
          \* zeros for a point that has not been updated yet
          /\ Ev.var[i][1] = c.nvars
          /\ (p.seen /\ ~p.open) => Ev.var[i] = p.vars
          /\ (~p.seen /\ ~p.open) => \A k \in 2..Len(Ev.var[i]) : Ev.var[i][k] = 0
          /\ qy.nl = 0 => \A k \in 2..Len(Ev.var[i]) : Ev.var[i][k] = 0
  /\ solves = -1 \/ solves = Total([i \in 1..Len(order) |-> Ev.conv[i].its])

TNext == TCfg \/ TNew \/ TSet \/ THom \/ TUpd \/ TOther \/ TWri
TSpec == TInit /\ [][TNext]_tvars
TView == l
Accepted ==
  LET n == TLCGet("stats").diameter - 1 IN
  /\ PrintT("TRACE-POS " \o ToString(n) \o " OF " \o ToString(Len(Trace)))
  /\ n = Len(Trace)
=============================================================================
