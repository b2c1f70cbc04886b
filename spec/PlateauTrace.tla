---------------------------- MODULE PlateauTrace ----------------------------
EXTENDS Plateau, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l
e == Trace[l]
Abs(x) == IF x < 0 THEN -x ELSE x
(* expected rate after d decays: rate * (num/den)^d, in fixed point; exact when den divides *)
RECURSIVE Dec(_, _, _)
Dec(v, f, d) == IF d = 0 THEN v ELSE Dec((v \div f.den) * f.num + ((v % f.den) * f.num) \div f.den, f, d - 1)
RateOf(o) == Dec(o.rate, o.factor, o.decays)
Close(x, o) == Abs(x - RateOf(o)) <= (IF o.factor.den = 2 /\ o.decays <= 10 THEN 0 ELSE 12)
TraceInit == l = 1 /\ live = [x \in {} |-> 0]
TraceNext ==
  /\ l <= Len(Trace) /\ l' = l + 1
  /\ CASE e.op = "begin" -> live' = (1 :> Obj0([num |-> e.num, den |-> e.den], e.patience, e.thr, e.rate))
       [] e.op = "q" -> /\ Report(e.id, e.e) /\ e.units /\ e.v_ok /\ Close(e.v, live'[e.id])
       [] e.op = "clone" -> Copy(e.id, e.to)
       [] e.op = "del" -> Drop(e.id)
TraceSpec == TraceInit /\ [][TraceNext]_<<l, live>>
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
