--------------------------- MODULE SuwaTodoTrace ---------------------------
EXTENDS SuwaTodo, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l
e == Trace[l]
(* e.noisy: the same with weights that carry rounding errors depending on the starting state.  e.w integer weights, e.v measured flow in units 1/e.m, e.edge states reached by extreme random numbers *)
Scaled == [i \in 1..Len(e.w) |-> e.w[i] * e.m]
Edges == \A k \in DOMAIN e.edge : e.edge[k] \in 1..Len(e.w) /\ e.w[e.edge[k]] > 0
TraceInit == l = 1 /\ w = << >>
TraceNext == /\ l <= Len(Trace) /\ l' = l + 1 /\ UNCHANGED w
             /\ e.inrange /\ e.alias /\ e.same /\ GoodFlow(Scaled, e.v) /\ GoodFlow(Scaled, e.noisy) /\ Edges
TraceSpec == TraceInit /\ [][TraceNext]_<<l, w>>
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
