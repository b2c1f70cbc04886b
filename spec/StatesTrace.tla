---------------------------- MODULE StatesTrace ----------------------------
EXTENDS States, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, G, psis
vars == <<l, G, psis>>
e == Trace[l]
Geo(x) == [r |-> x.r, c |-> x.c, bc |-> x.bc, p |-> x.p, d |-> <<>>]
Net(x) == [r |-> x.r, c |-> x.c, bc |-> x.bc, d |-> x.d]
NS == G.r * G.c
Keep(v) == e.exact /\ e.amp = v /\ psis' = Append(psis, v)
New(v) == e.exact /\ e.amp = v /\ psis' = Append(psis, v) /\ G' = Geo(e)
RECURSIVE MaxOf(_, _)
MaxOf(s, k) == IF k = 1 THEN s[1] ELSE LET m == MaxOf(s, k - 1) IN IF s[k] > m THEN s[k] ELSE m
Range(s) == {s[i] : i \in 1..Len(s)}
After == Apply(psis[e.of], G.p, NS, e.sites, e.m)
Reports == e.D = MaxOf(e.dims, Len(e.dims)) \* the bond dimension it reports is the one it left
TraceInit == l = 1 /\ G = <<>> /\ psis = <<>>
TraceNext ==
  /\ l <= Len(Trace) /\ l' = l + 1
  /\ CASE e.op = "scenario" -> G' = <<>> /\ psis' = <<>>
       [] e.op = "net" -> New(OfNet(Net(e), e.X, e.p))
       [] e.op = "peps" -> New(OfPeps(Net(e), e.X, e.p, e.qw, e.qn))
       [] e.op = "product" -> New(Product(e.p, e.cfg))
       [] e.op = "sum" -> UNCHANGED G /\ Keep(Combine([j \in 1..Len(e.of) |-> psis[e.of[j]]], e.coef, Len(e.of)))
       [] e.op = "same" -> UNCHANGED G /\ Keep(psis[e.of])
       [] e.op = "project" -> UNCHANGED <<G, psis>> /\ e.exact /\ e.amp = At(psis[e.of], NumberOf(G.p, e.cfg))
       [] e.op = "gate" -> /\ UNCHANGED G /\ e.sites = Sites(G, e.kind, e.at[1], e.at[2]) /\ Keep(After)
                           /\ Reports /\ e.te_ok /\ e.te = 0 /\ ~e.eloc
                           /\ Range(e.cg) \subseteq Range(e.sites) /\ Range(e.cb) \subseteq Bonds(G, e.kind, e.at[1], e.at[2])
       [] e.op = "energy" -> LET a == After IN UNCHANGED G /\ Keep(a) /\ Reports /\ e.eloc /\ e.all = Norm2(a) /\ e.e = Expectation(a, G.p, NS, e.sites, e.h)
       [] e.op = "cut" -> LET a == After IN UNCHANGED <<G, psis>> /\ e.exact /\ Reports /\ e.D <= e.Dmax /\ e.eloc /\ e.all = Norm2(a) /\ e.e = Expectation(a, G.p, NS, e.sites, e.h)
TraceSpec == TraceInit /\ [][TraceNext]_vars
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
