------------------------- MODULE SimpleUpdateTrace -------------------------
EXTENDS SimpleUpdate, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, G, psis, gates, cfg0
vars == <<l, G, psis, gates, cfg0>>
e == Trace[l]
Geo(x) == [r |-> x.r, c |-> x.c, bc |-> x.bc, p |-> x.p]
Keep(v) == e.exact /\ e.amp = v /\ psis' = Append(psis, v)
New(v) == Keep(v) /\ G' = Geo(e)
Rest == UNCHANGED <<G, psis, gates, cfg0>>
Ran == \E r \in Runs(e.cfg, e.script, 0, 0) :
  /\ e.swept = r[1] /\ e.done = r[1] /\ e.done2 = r[1]
  /\ e.conv = r[2] /\ e.conv2 = r[2] /\ e.why = (IF r[2] THEN 2 ELSE 1)
  /\ e.has = (r[1] > 0) /\ e.has2 = (r[1] > 0)
  /\ (r[1] > 0 => LET f == e.script[r[1]] IN e.fin = <<f.e0, f.e0, f.en, f.e0>>)
  /\ LET m == Metrics(e.script, r[1], e.tau) IN e.m = m /\ e.seen = (IF e.watch THEN m ELSE <<>>) /\ e.out = (IF e.emit THEN m ELSE <<>>)
TraceInit == l = 1 /\ G = <<>> /\ psis = <<>> /\ gates = 0 /\ cfg0 = <<>>
TraceNext ==
  /\ l <= Len(Trace) /\ l' = l + 1
  /\ CASE e.op = "scenario" -> G' = <<>> /\ psis' = <<>> /\ gates' = 0 /\ cfg0' = <<>>
       [] e.op = "su" -> UNCHANGED <<G, psis, cfg0>> /\ gates' = e.gates
       [] e.op = "tau" -> UNCHANGED <<G, psis, cfg0>> /\ e.now = e.tau /\ e.gtau = e.tau /\ e.gates > gates /\ gates' = e.gates   \* the gates follow the step length
       [] e.op = "execute" -> /\ UNCHANGED <<G, psis, cfg0>> /\ gates' = e.gates /\ e.exact
                              /\ e.res = (IF Valid(e.cfg) THEN "ok" ELSE "invalid")
                              /\ (e.res = "ok" => e.gtau = e.tau /\ Ran)
       [] e.op = "peps" -> UNCHANGED <<gates, cfg0>> /\ New(OfPeps([r |-> e.r, c |-> e.c, bc |-> e.bc, d |-> e.d], e.X, e.p, e.qw, e.qn))
       [] e.op = "product" -> UNCHANGED gates /\ New(Product(e.p, e.cfg)) /\ cfg0' = e.cfg
       [] e.op = "evolve" -> /\ UNCHANGED <<G, gates, cfg0>> /\ e.te /\ Keep(Evolve(psis[e.of], G, G.p, e))
                             \* a basis state keeps its energy, and every sweep reports it; e0 in halves of ln 2
                             /\ Len(e.e0) = e.n
                             /\ (e.basis => \A k \in 1..e.n : e.e0[k] = (IF e.kind = "T" THEN 1 ELSE 2) * Energy(G, G.p, e, cfg0))
       [] e.op = "exp" -> Rest /\ e.exact /\ e.legs /\ e.g = Exp2(e.m, e.q, e.tau)
TraceSpec == TraceInit /\ [][TraceNext]_vars
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
