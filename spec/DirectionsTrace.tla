--------------------------- MODULE DirectionsTrace ---------------------------
EXTENDS Directions, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l
e == Trace[l]
TraceInit == l = 1
TraceNext == /\ l <= Len(Trace) /\ l' = l + 1
             /\ CASE e.op = "begin" -> TRUE
                  [] e.op = "pos" -> e.opp = Opp(e.p) /\ e.oppopp = e.p /\ e.orient = Orient(e.p) /\ e.leg = Leg(e.p) /\ e.val = Leg(e.p)
                  [] e.op = "orient" -> e.rot = Rot(e.o) /\ e.rotrot = e.o
TraceSpec == TraceInit /\ [][TraceNext]_l
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
