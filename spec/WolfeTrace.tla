----------------------------- MODULE WolfeTrace -----------------------------
(* One-parameter L-BFGS with line search: main evaluation, then trials x + a*d, then the next main evaluation. *)
EXTENDS Wolfe, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, w, s, x, g, d, it, prev, live, lrt
vars == <<l, w, s, x, g, d, it, prev, live, lrt>>
e == Trace[l]
Idle == [ph |-> "idle", a |-> 0]
TraceInit == l = 1 /\ w = [cap |-> 0] /\ s = Idle /\ x = 0 /\ g = 0 /\ d = 0 /\ it = 0 /\ prev = <<0, 0>> /\ live = FALSE /\ lrt = <<>>
Begin == w' = e /\ s' = [Idle EXCEPT !.ph = "main"] /\ x' = e.x0 /\ live' = TRUE /\ it' = 0 /\ lrt' = <<>> /\ prev' = <<0, 0>> /\ UNCHANGED <<g, d>>
(* where the next main evaluation takes place once the search is over *)
StepOf == IF s.ph = "ok" THEN s.a ELSE Fallback(w)
Main == \* iteration it starts at state x
  /\ (live => e.x_ok /\ e.x = x)
  /\ LET cur == (x - prev[1]) * (e.g - prev[2]) IN
     IF it > 0 /\ cur > 0 THEN live' = FALSE /\ d' = 0 /\ s' = s       \* a curvature pair enters: direction no longer on the grid
     ELSE live' = live /\ d' = 0 - e.g /\ s' = Search0(w, e.e, 0 - e.g * e.g)
  /\ g' = e.g /\ prev' = <<x, e.g>> /\ UNCHANGED <<w, x, it, lrt>>
Trial == /\ e.x_ok /\ e.x = x + s.a * d
         /\ LET t == Probe(w, s, e.e, e.g * d) IN s' = t /\ live' = ~(t.ph = "zoom" /\ Odd(t))
         /\ UNCHANGED <<w, x, g, d, it, prev, lrt>>
Over == ~Running(s) /\ s.ph \in {"ok", "fail"}
Land == x + StepOf * d
Fails == s.ph = "bad" \/ (s.ph = "fail" /\ ~w.fb)
Next2 == \* the search is over: this evaluation belongs to the next iteration
  /\ ~Fails /\ it + 1 < w.iters /\ e.x_ok /\ e.x = Land
  /\ LET cur == StepOf * d * (e.g - g) IN
     IF cur > 0 THEN live' = FALSE /\ d' = 0 /\ s' = s ELSE live' = TRUE /\ d' = 0 - e.g /\ s' = Search0(w, e.e, 0 - e.g * e.g)
  /\ x' = Land /\ g' = e.g /\ it' = it + 1 /\ prev' = <<x, g>> /\ lrt' = Append(lrt, StepOf) /\ UNCHANGED w
End == /\ e.verdict = "ok"
       /\ IF Fails THEN e.exc # ""
          ELSE /\ Over /\ e.exc = "" /\ it + 1 = w.iters /\ e.x_ok /\ e.x = Land /\ e.lrt = Append(lrt, StepOf)
               /\ e.same
TraceNext ==
  /\ l <= Len(Trace) /\ l' = l + 1
  /\ CASE e.op = "begin" -> Begin
       [] e.op = "ev" -> IF ~live THEN UNCHANGED <<w, s, x, g, d, it, prev, live, lrt>>
                         ELSE IF s.ph = "main" THEN Main ELSE IF Running(s) THEN Trial ELSE Next2
       [] e.op = "end" -> (live => End) /\ e.verdict = "ok" /\ UNCHANGED <<w, s, x, g, d, it, prev, live, lrt>>
TraceSpec == TraceInit /\ [][TraceNext]_vars
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
