----------------------------- MODULE RulesTrace -----------------------------
EXTENDS Rules, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, p, m, x, g, live
e == Trace[l]
None == [alg |-> "none"]
TraceInit == l = 1 /\ p = None /\ m = <<>> /\ x = <<>> /\ g = <<>> /\ live = FALSE
(* x, g: state and gradient of the last evaluation of the current run (<<>>: none yet) *)
Begin == p' = e /\ m' = <<>> /\ x' = <<>> /\ g' = <<>> /\ live' = TRUE
Eval ==
  /\ (x = <<>> \/ (live /\ ~Fuzzy(p, m, x, g)) => e.x_ok)
  /\ IF x = <<>> \/ ~live THEN m' = (IF x = <<>> THEN Mem0(e.x) ELSE m) /\ live' = live
     ELSE LET big == Fuzzy(p, m, x, g) IN
          IF big THEN live' = FALSE /\ m' = m
          ELSE LET s == Step(p, m, x, g) IN Close(s.x, e.x, Tol(p, x, s.x)) /\ m' = s.m /\ live' = TRUE
  /\ x' = e.x /\ g' = e.g /\ UNCHANGED p
End == e.verdict = "ok" /\ e.exc = "" /\ e.n = p.iters /\ UNCHANGED <<p, m, x, g, live>>
Trial == \* a candidate of the step selector: the rule previewed with k times the rate, the memory untouched
  /\ e.x_ok /\ (live => LET q == [p EXCEPT !.lr4 = @ * e.mul] s == Step(q, m, x, g) IN Close(s.x, e.x, Tol(q, x, s.x)))
  /\ UNCHANGED <<p, m, x, g, live>>
Chosen == p' = [p EXCEPT !.lr4 = @ * e.mul] /\ UNCHANGED <<m, x, g, live>>
TraceNext == /\ l <= Len(Trace) /\ l' = l + 1
             /\ CASE e.op = "begin" -> Begin [] e.op = "ev" -> Eval [] e.op = "try" -> Trial [] e.op = "pick" -> Chosen [] e.op = "end" -> End
TraceSpec == TraceInit /\ [][TraceNext]_<<l, p, m, x, g, live>>
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
