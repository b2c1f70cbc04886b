------------------------------ MODULE EmaTrace ------------------------------
(* Two modes per scenario: exact (spec's own state, zero tolerance) for dyadic windows and short histories; otherwise
   one-step: the recursion from the previously observed state must give the newly observed one (rounding only). *)
EXTENDS Ema, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, t, exact
e == Trace[l]
Abs(x) == IF x < 0 THEN -x ELSE x
(* fixed point of the one-step mode: unit 1/F *)
F == 16384
MulF(a, b) == LET sg == IF (a < 0) # (b < 0) THEN -1 ELSE 1
                  x == Abs(a)  y == Abs(b)  xh == x \div 128  xl == x % 128  yh == y \div 128  yl == y % 128
              IN sg * (xh*yh + (xh*yl + xl*yh) \div 128)
Div(a, b) == IF a >= 0 THEN (2*a + b) \div (2*b) ELSE -((2*(-a) + b) \div (2*b))
StepMean(t0, x, w) == t0.mean + Div(2 * (x - t0.mean), w + 1)
StepVar(t0, x, w) == LET d == x - t0.mean
                         in == t0.var + Div(2 * MulF(d, d), w + 1)
                     IN in - Div(2 * in, w + 1)
Tol(x) == 4 + Abs(x) \div 2000
StdOk(ev) == \* std >= 0 and std^2 ~ var
   /\ ev.std >= 0 /\ Abs(MulF(ev.std, ev.std) - ev.var) <= 4 + ev.std \div 1000 + ev.var \div 1000
TraceInit == l = 1 /\ t = New(1) /\ exact = TRUE
(* units: the same history in units 2^50 times smaller and larger gives the same numbers in those units *)
Obs == /\ e.units /\ e.mean_ok /\ e.var_ok /\ e.std_ok
TraceNext ==
  /\ l <= Len(Trace) /\ l' = l + 1
  /\ CASE e.op = "begin" -> /\ t' = New(e.w) /\ exact' = e.exact /\ e.init = FALSE
       [] e.op = "reset" -> /\ t' = Rst(t) /\ UNCHANGED exact /\ Obs /\ e.init = FALSE /\ e.mean = 0 /\ e.var = 0
       [] e.op = "u" /\ exact ->
            /\ t' = Upd(t, e.x) /\ Obs /\ e.init /\ e.mean = t'.mean /\ e.var = t'.var /\ UNCHANGED exact
       [] e.op = "u" /\ ~exact ->
            /\ Obs /\ e.init /\ e.var >= 0 /\ StdOk(e)
            /\ IF ~t.init THEN e.mean = e.x /\ e.var = 0
               ELSE /\ Abs(e.mean - StepMean(t, e.x, t.w)) <= 2
                    /\ LET v == StepVar(t, e.x, t.w) IN Abs(e.var - v) <= Tol(v)
            /\ t' = [t EXCEPT !.init = TRUE, !.mean = e.mean, !.var = e.var]
            /\ UNCHANGED exact
TraceSpec == TraceInit /\ [][TraceNext]_<<l, t, exact>>
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
