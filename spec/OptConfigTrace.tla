--------------------------- MODULE OptConfigTrace ---------------------------
EXTENDS OptConfig, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, b, live
e == Trace[l]
Ids == {"1", "2", "3"}
Num(s) == CASE s = "1" -> 1 [] s = "2" -> 2 [] s = "3" -> 3
RECURSIVE Pow2(_)
Pow2(n) == IF n <= 0 THEN 1 ELSE 2 * Pow2(n - 1)
(* the dump asks a copy of the schedule once more: n earlier questions -> rate 2^-n of 2^20 *)
SchedObs(n) == IF n = -1 THEN 0 ELSE IF n > 20 THEN 1 ELSE 1048576 \div Pow2(n)
Matches(o, c) ==
  /\ o.base = c.base /\ o.sched = SchedObs(c.sched) /\ o.clip = c.clip /\ o.isel = c.isel /\ o.psel = c.psel
  /\ o.jsonl = c.jsonl /\ o.algo = c.algo /\ o.args = c.args /\ o.ckpt = c.ckpt /\ o.spike = c.spike
  /\ o.first = FirstOrder(c) /\ o.ckpton = CkptOn(c) /\ o.wrongget
AllMatch == /\ {e.all[k].id : k \in DOMAIN e.all} = DOMAIN live'
            /\ \A k \in DOMAIN e.all : Matches(e.all[k].c, live'[e.all[k].id])
Put(k, c) == live' = (k :> c) @@ live
WithBase(t, s) == [t EXCEPT !.base = s.base, !.sched = s.sched, !.clip = s.clip, !.isel = s.isel, !.psel = s.psel, !.jsonl = s.jsonl]
Without(i) == [x \in DOMAIN live \ {i} |-> live[x]]
DecayExp(x, n, adv) == \* expected decay projection: rate, rate*r, rate*r*r  (unit 1e-6)
   IF (~adv /\ n = 1) \/ (adv /\ n = 4) THEN <<10000, 9500, 9025>> ELSE <<20000, 10000, 5000>>
TraceInit == l = 1 /\ b = B0 /\ live = [x \in {} |-> 0]
TraceNext ==
  /\ l <= Len(Trace) /\ l' = l + 1 /\ e.same
  /\ IF e.op = "begin" THEN b' = B0 /\ live' = [x \in {} |-> 0] /\ ~e.threw
     ELSE IF Refused(b, e.op) THEN e.threw /\ UNCHANGED <<b, live>>
     ELSE /\ ~e.threw
          /\ CASE e.op \in SetOps -> b' = SetOp(b, e.op, e.a) /\ UNCHANGED live
               [] e.op = "copyb" -> UNCHANGED <<b, live>>
               [] e.op = "build" -> Put(Num(e.a[1]), b.cfg) /\ UNCHANGED b
               [] e.op \in {"copy", "assign", "ctor4"} -> Put(Num(e.a[2]), live[Num(e.a[1])]) /\ UNCHANGED b
               [] e.op = "ctor2" -> Put(Num(e.a[2]), [live[Num(e.a[1])] EXCEPT !.ckpt = <<"0", "">>, !.spike = Spike0]) /\ UNCHANGED b
               [] e.op = "assignbase" -> Put(Num(e.a[2]), WithBase(live[Num(e.a[2])], live[Num(e.a[1])])) /\ UNCHANGED b
               [] e.op = "move" -> live' = (Num(e.a[2]) :> live[Num(e.a[1])]) @@ Without(Num(e.a[1])) /\ UNCHANGED b
               [] e.op = "pump" -> Put(Num(e.a[1]), Pump(live[Num(e.a[1])])) /\ UNCHANGED b
               [] e.op = "mut" -> Put(Num(e.a[1]), Mut(live[Num(e.a[1])])) /\ UNCHANGED b
               [] e.op = "del" -> live' = Without(Num(e.a[1])) /\ UNCHANGED b
               [] e.op = "fac" -> /\ Put(Num(e.a[1]), Factory(e.a[2], SubSeq(e.a, 3, Len(e.a)))) /\ UNCHANGED b
                                  /\ e.a[2] \in {"decay", "decaya"} =>
                                       e.hasdecay /\ e.decay_ok /\ e.decay = DecayExp(e.a, Len(e.a) - 2, e.a[2] = "decaya")
  /\ AllMatch
TraceSpec == TraceInit /\ [][TraceNext]_<<l, b, live>>
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
