--------------------------- MODULE OptimizerTrace ---------------------------
(* A recorded run of the real optimizer must be a behaviour of Optimizer.tla. p.chk names the aspects compared; for an
   aspect that is not compared the specification adopts what was observed, so each check answers for its own property. *)
EXTENDS Optimizer, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, p, s
e == Trace[l]
Chk(a) == \E i \in 1..Len(p.chk) : p.chk[i] = a
None == [chk |-> <<>>]
TraceInit == l = 1 /\ p = None /\ s = [ph |-> "done"]
ObsX(t) == IF Chk("state") THEN t ELSE [t EXCEPT !.cur = e.x]
Seq2(f) == f
LogOf(q) == [i \in 1..Len(q) |-> <<q[i].step, q[i].att, q[i].sig, q[i].act>>]
AcceptedOrigin == s
EndOk ==
  IF s.refused THEN e.exc # "" ELSE
  /\ e.exc = ""
  /\ Chk("flow") => /\ LogOf(e.log) = LogOf(s.log)
                    /\ e.nres = Count(s.log, "RESAMPLE") /\ e.nroll = Count(s.log, "ROLLBACK") /\ e.nforced = Count(s.log, "ACCEPT_WARN")
  /\ Chk("result") => /\ e.traj = s.traj /\ e.errs = s.errs /\ e.gns = s.gns /\ e.n = Len(s.traj)
                      /\ (Len(s.traj) > 0 => e.fe = s.traj[Len(s.traj)] /\ e.me = s.low)
                      /\ e.x = s.cur /\ e.x_ok /\ e.lowx = s.lowx /\ e.lowx_ok
  /\ Chk("lr") => e.lrt = s.lrt
  /\ Chk("conv") => e.conv = s.conv /\ e.n = Len(s.traj)
  /\ Chk("log") => /\ e.jsonl_ok
                   /\ e.jiter = [i \in 1..Len(s.traj) |-> i - 1] /\ e.jE = s.traj /\ e.jerr = s.errs /\ e.jg = s.gns /\ e.jlr = s.lrt /\ e.jsel = s.selt
                   /\ e.jeta = [i \in 1..Len(s.traj) |-> IF s.selt[i] THEN s.lrt[i] ELSE 0]
                   /\ LogOf(e.csv) = LogOf(s.log)
  /\ Chk("ckpt") => /\ e.cks = [i \in 1..Len(s.cks) |-> [step |-> s.cks[i].step, x |-> s.cks[i].x, mstep |-> s.cks[i].step, mE |-> s.traj[s.cks[i].step + 1], merr |-> s.errs[s.cks[i].step + 1],
                                                        tE |-> SubSeq(s.traj, 1, s.cks[i].step + 1), terr |-> SubSeq(s.errs, 1, s.cks[i].step + 1)]]
                    /\ IF Len(s.cks) = 0 THEN e.topE = <<>>
                       ELSE LET k == s.cks[Len(s.cks)].step + 1 IN e.topE = SubSeq(s.traj, 1, k) /\ e.toperr = SubSeq(s.errs, 1, k)
  /\ Chk("ranks") => /\ e.verdict = "ok"
                     /\ \A r \in 1..Len(e.revals) : e.revals[r] = s.tot /\ e.rn[r] = Len(s.traj) /\ e.rtraj[r] = s.traj /\ e.rlrt[r] = s.lrt
  /\ Chk("stats") => e.gres = e.nres /\ e.groll = e.nroll /\ e.gforced = e.nforced
Vof == [e |-> e.e, err |-> e.err, g |-> e.g, d |-> e.d, s1 |-> e.s1, s2 |-> e.s2, s3 |-> e.s3, s4 |-> e.s4]
TraceNext ==
  /\ l <= Len(Trace) /\ l' = l + 1
  /\ CASE e.op = "begin" -> /\ s.ph = "done" /\ p' = e /\ s' = Init0(e)
       [] e.op = "ev" /\ s.ph = "eval" -> /\ ~e.eonly /\ (Chk("state") => e.x_ok /\ e.x = s.cur)
                                          /\ s' = Eval(p, ObsX(s), Vof) /\ UNCHANGED p
       [] e.op = "ev" /\ s.ph = "trial" -> /\ e.eonly = p.eonly /\ (Chk("state") => e.x_ok /\ e.x = TrialX(p, s))
                                           /\ s' = Trial(p, s, Vof) /\ UNCHANGED p
       [] e.op = "low" -> /\ s.ph = "low" /\ (Chk("result") => e.e = s.low /\ e.x = s.lowx /\ e.x_ok) /\ s' = Low(p, s) /\ UNCHANGED p
       [] e.op = "it" -> /\ s.ph = "iter" /\ e.i = s.iter /\ (Chk("result") => e.e = s.v.e /\ e.err = s.v.err /\ e.g = s.v.g) /\ s' = Iter(p, s) /\ UNCHANGED p
       [] e.op = "ask" -> /\ s.ph = "ask" /\ e.i = s.iter /\ s' = Ask(p, s, e.ans) /\ UNCHANGED p
       [] e.op = "end" -> /\ s.ph = "end" /\ EndOk /\ s' = [ph |-> "done"] /\ p' = None
       [] OTHER -> FALSE /\ UNCHANGED <<p, s>>
TraceSpec == TraceInit /\ [][TraceNext]_<<l, p, s>>
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
