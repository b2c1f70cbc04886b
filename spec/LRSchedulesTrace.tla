------------------------- MODULE LRSchedulesTrace -------------------------
(* Every recorded query of the real schedule objects must return the schedule's value at that iteration,
   whatever was asked or copied before. *)
EXTENDS LRSchedules, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, live
tvars == <<l, live>>
e == Trace[l]
Norm(x) == CASE x.kind = "stepdef" -> [kind |-> "step", a |-> x.a, r |-> 100000, n |-> x.n]
             [] x.kind = "cosdef" -> [kind |-> "cos", a |-> x.a, b |-> 0, n |-> x.n]
             [] x.kind = "warmdef" -> [kind |-> "warm", a |-> x.a, b |-> 0, n |-> x.n]
             [] OTHER -> x
Close(x, y) == Abs(x - y) <= 3
TraceInit == l = 1 /\ live = [x \in {} |-> 0] /\ sch = 0 /\ it = 0
TraceNext ==
  /\ l <= Len(Trace) /\ l' = l + 1 /\ UNCHANGED <<sch, it>>
  /\ CASE e.op = "begin" -> live' = [x \in {} |-> 0]
       [] e.op = "new" -> live' = (e.id :> Norm(e)) @@ live
       [] e.op = "clone" -> live' = (e.to :> live[e.id]) @@ live
       [] e.op = "step" -> UNCHANGED live
       [] e.op = "del" -> live' = [x \in DOMAIN live \ {e.id} |-> live[x]]
       [] e.op = "q" -> /\ e.units /\ e.v_ok /\ Close(e.v, Value(live[e.id], e.it, e.huge)) /\ UNCHANGED live
TraceSpec == TraceInit /\ [][TraceNext]_<<l, live, sch, it>>
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
