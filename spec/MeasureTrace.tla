---------------------------- MODULE MeasureTrace ----------------------------
EXTENDS Measure, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, b, calls, cfg, hist     \* the scenario, sweeps of every rank so far, present configurations, samples[r][s] = [cfg, vals, psi ...]
vars == <<l, b, calls, cfg, hist>>
e == Trace[l]
K == 1000
Abs(a) == IF a < 0 THEN -a ELSE a
Near(obs, num, den) == Abs(obs - (K * num) \div den) <= 2
Rk == 1..b.ranks
At(r, k) == IF k = 0 THEN b.c0[r] ELSE b.todo[r][((k - 1) % Len(b.todo[r])) + 1]      \* configuration after k sweeps
NKeys == Len(b.keys)
Pn == Len(b.pps) > 0
Spr == Share(b.total, b.ranks)
N == b.r * b.c
(* samples of observable k on all ranks *)
Obs(k) == [r \in Rk |-> [s \in 1..Len(hist'[r]) |-> IF k <= NKeys THEN hist'[r][s].vals[k] ELSE OneHot(hist'[r][s].cfg, b.pps)]]
Width(k) == IF k <= NKeys THEN b.keys[k].n ELSE Bins(N, b.pps)
NumKeys == NKeys + (IF Pn THEN 1 ELSE 0)
StatIs(g, k) == \* what the table of rank 1 says of observable k
  LET x == TLCEval(Obs(k)) w == Width(k) IN
  /\ Len(g.m) = 2 * w /\ Len(g.se2) = (IF b.ranks = 1 THEN 0 ELSE w)
  /\ \A i \in 1..w : LET m == TLCEval(StatOf(x, i)) IN Near(g.m[2 * i - 1], m.sum[1], m.den) /\ Near(g.m[2 * i], m.sum[2], m.den) /\ (b.ranks > 1 => Near(g.se2[i], m.dev, m.dden))
MetaCount == Cardinality({k \in 1..NKeys : b.keys[k].meta}) + (IF Pn THEN 1 ELSE 0)
Written(q, r) == \* table and files of rank r
  LET S == Len(hist'[1]) IN
  /\ (r = 1 => q.md = <<b.total, Spr, Spr * b.ranks, S, S * b.ranks, b.ranks, b.wu, b.sweeps, b.r, b.c, MetaCount>>)
  /\ (r = 1 => q.psifile /\ q.psi = [s \in 1..S |-> LET h == hist'[1][s] IN <<100 * (s - 1), 100 * h.psi[1], 100 * h.psi[2], (200 * h.d + h.a) \div (2 * h.a)>>])
  /\ q.pnfile = Pn /\ q.pn = (IF Pn THEN [s \in 1..S |-> <<s - 1, Count(hist'[r][s].cfg, b.pps, N)>>] ELSE <<>>)
  /\ (r = 1 => /\ q.nkeys = (IF S = 0 THEN 0 ELSE NumKeys) /\ Len(q.keys) = NumKeys
               /\ \A k \in 1..NumKeys : LET g == q.keys[k] IN
                    IF S = 0 THEN ~g.has /\ ~g.file
                    ELSE /\ g.has /\ StatIs(g.reg, k) /\ g.file /\ g.shape /\ g.same
                         /\ g.map = (IF k <= NKeys /\ b.keys[k].tri THEN b.keys[k].n ELSE -1)
                         /\ g.coords = (IF k <= NKeys /\ b.keys[k].coord THEN <<b.r, b.c>> ELSE <<>>))
EnergyIs(v) == LET m == TLCEval(StatOf(Obs(1), 1)) IN Near(v[1], m.sum[1], m.den) /\ Near(v[2], m.sum[2], m.den) /\ (IF b.ranks = 1 THEN v[3] = 0 ELSE Near(v[3], m.dev, m.dden))
Run ==
  LET warm == IF b.warm THEN 0 ELSE b.wu
      S == Taken(Spr, warm, b.sweeps, IF b.sr = 0 THEN -1 ELSE IF b.sa = 0 THEN 0 ELSE IF b.sa <= calls[b.sr] THEN 0 ELSE b.sa - calls[b.sr])
      tot == warm + S * b.sweeps IN
  /\ e.verdict = "ok" /\ Len(e.rk) = b.ranks
  /\ hist' = [r \in Rk |-> e.rk[r].samples] /\ calls' = [r \in Rk |-> calls[r] + tot]
  /\ cfg' = [r \in Rk |-> IF tot = 0 THEN cfg[r] ELSE At(r, calls[r] + tot)]
  /\ \A r \in Rk : LET q == e.rk[r] IN
       /\ q.before = <<>> /\ Len(q.samples) = S /\ q.cfg = cfg'[r] /\ q.saved
       /\ q.entry = [k \in 1..tot |-> IF k = 1 THEN cfg[r] ELSE At(r, calls[r] + k - 1)]
       /\ \A s \in 1..S : q.samples[s].cfg = At(r, calls[r] + warm + s * b.sweeps)
       /\ Written(q.res, r)
       /\ (IF r > 1 \/ S = 0 THEN q.est = <<>> /\ q.oe = <<0, 0, 0>> ELSE Len(q.est) = 3 /\ EnergyIs(q.est) /\ EnergyIs(q.oe))
  /\ UNCHANGED b
Again == /\ e.verdict = "ok" /\ Len(e.rk) = b.ranks /\ UNCHANGED <<b, calls, cfg, hist>> /\ \A r \in Rk : e.rk[r].entry = <<>> /\ Written(e.rk[r].res, r)
Left(r) == IF r = 1 THEN b.ranks ELSE r - 1
Replica ==
  LET tot == Spr * b.sweeps IN
  /\ e.verdict = "ok" /\ Len(e.rk) = b.ranks /\ UNCHANGED <<b, hist>>
  /\ calls' = [r \in Rk |-> calls[r] + tot] /\ cfg' = [r \in Rk |-> At(r, calls[r] + tot)]
  /\ \A r \in Rk : LET q == e.rk[r] IN
       /\ q.cfg = cfg'[r] /\ q.entry = [k \in 1..tot |-> IF k = 1 THEN cfg[1] ELSE At(r, calls[r] + k - 1)]     \* every replica starts from the first rank's
       /\ q.ov = [s \in 1..Spr |-> Ov(At(r, calls[r] + s * b.sweeps), At(Left(r), calls[Left(r)] + s * b.sweeps), N)]
TraceInit == l = 1 /\ b = [ranks |-> 0] /\ calls = <<>> /\ cfg = <<>> /\ hist = <<>>
TraceNext == /\ l <= Len(Trace) /\ l' = l + 1
  /\ CASE e.op = "begin" -> b' = e /\ calls' = [r \in 1..e.ranks |-> 0] /\ cfg' = e.c0 /\ hist' = [r \in 1..e.ranks |-> <<>>]
       [] e.op = "run" -> Run
       [] e.op = "write" -> Again
       [] e.op = "replica" -> Replica
       [] e.op = "refuse" -> /\ UNCHANGED <<b, calls, cfg, hist>> /\ e.verdict = "ok" /\ Len(e.how) = e.ranks
                            /\ \A r \in 1..e.ranks : e.how[r] = (IF e.kind = 0 THEN 2 ELSE IF e.kind <= 3 THEN 0 ELSE 1)
       [] OTHER -> FALSE
TraceSpec == TraceInit /\ [][TraceNext]_vars
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
