----------------------------- MODULE StatsTrace -----------------------------
EXTENDS Stats, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l
e == Trace[l]
Abs(a) == IF a < 0 THEN -a ELSE a
Near(obs, num, den) == Abs(obs - (e.k * num) \div den) <= 2
(* one estimate r = [re, im, se2, fin, nan, zero]: numbers in units 1/k, shifted back to the integer data *)
MeanIs(r, m) == r.ok /\ Near(r.re, m.sum[1], m.den) /\ Near(r.im, m.sum[2], m.den)
ErrIs(r, m) == IF m.n = 1 THEN r.inf ELSE ~r.inf /\ ~r.nan /\ Near(r.se2, m.dev, m.dden)
Est(r, m) == IF m.n = 0 THEN r.zero ELSE MeanIs(r, m) /\ ErrIs(r, m)
Col(j) == [i \in 1..Len(e.xs) |-> e.xs[i][j]]
Others == \A i \in 1..Len(e.others) : e.others[i]
Ok ==
  CASE e.op = "bin" -> e.verdict = "ok" /\ Est(e.r[1], Binned(e.xs)) /\ Others
    [] e.op = "single" -> e.verdict = "ok" /\ Est(e.r[1], Res(Col(1), 1)) /\ Others
    [] e.op = "list" -> /\ e.verdict = "ok" /\ Others /\ e.navg = Len(e.xs[1]) /\ e.nerr = (IF Len(e.xs) = 1 THEN 0 ELSE Len(e.xs[1]))
                        /\ \A j \in 1..Len(e.xs[1]) : IF Len(e.xs) = 1 THEN MeanIs(e.r[j], Res(Col(j), 1)) ELSE Est(e.r[j], Res(Col(j), 1))
    [] e.op = "local" -> Est(e.r[1], Res(e.xs[1], 1)) /\ (Len(e.xs[1]) > 0 => ~e.var_nan /\ Near(e.var, Dev(e.xs[1]), Len(e.xs[1]) * Len(e.xs[1]) * Len(e.xs[1])))
    [] e.op = "ave" -> e.navg = (IF Len(e.xs) = 0 THEN 0 ELSE Len(e.xs[1])) /\ \A j \in 1..e.navg : MeanIs(e.r[j], Res(Col(j), 1))
    [] e.op = "ips" -> e.g_ok /\ Near(e.g, Ips(e.xs[1])[1], Ips(e.xs[1])[2])
    [] e.op = "tensor" -> e.verdict = "ok" /\ Others /\ \A j \in 1..Len(e.xs[1]) : MeanIs(e.r[j], Res(Col(j), 1))
    [] e.op = "dump" -> IF e.fault THEN e.threw ELSE ~e.threw /\ e.back = e.wrote
    [] OTHER -> FALSE
TraceInit == l = 1
TraceNext == l <= Len(Trace) /\ l' = l + 1 /\ Ok
TraceSpec == TraceInit /\ [][TraceNext]_l
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
