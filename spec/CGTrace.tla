------------------------------ MODULE CGTrace ------------------------------
EXTENDS CG, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, last
e == Trace[l]
None == [why |-> "none"]
Case == [A |-> e.A, b |-> e.b, x0 |-> e.x0, max |-> e.max, tn |-> e.tn, td |-> e.td, spd |-> e.spd, std |-> e.std]
Got == [x |-> e.x, res |-> e.res, it |-> e.it, why |-> e.why]
(* units: the same system in other units has the same history and the scaled solution *)
Ranks == e.units /\ e.verdict = "ok" /\ e.left = 0 /\ e.done = e.n /\ \A r \in 1..Len(e.muls) : e.muls[r] = e.muls[1]
TraceInit == l = 1 /\ last = None
TraceNext ==
  /\ l <= Len(Trace) /\ l' = l + 1
  /\ CASE e.op = "begin" -> last' = None
       [] e.op = "cg" /\ ~e.spd /\ ~(e.x_ok /\ e.res_ok) -> /\ Ranks /\ Bounded(Case, Got) /\ last' = None   \* (near-)singular system: outside the projection
       [] e.op = "cg" -> /\ Ranks /\ e.x_ok /\ e.res_ok /\ Allowed(Case, Got) /\ (last # None /\ (e.n = 0 \/ (e.spd /\ e.std)) => Later(last, Got)) /\ last' = Got
       [] e.op = "nan" -> /\ Ranks /\ e.why \in {"kNumericalBreakdown", "kIndefiniteMatrix"} /\ e.x = e.x0k /\ UNCHANGED last
TraceSpec == TraceInit /\ [][TraceNext]_<<l, last>>
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
