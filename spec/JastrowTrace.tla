---------------------------- MODULE JastrowTrace ----------------------------
EXTENDS Jastrow, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, t, n
e == Trace[l]
Obs == /\ e.ns = n' /\ e.t_ok
       /\ \A i, j \in 1..n' : e.t[(i - 1) * n' + j] = Get(t', i - 1, j - 1)
       /\ e.by_site /\ \A i \in 1..n' : e.field[i] = Field(t', e.d, i - 1)
TraceInit == l = 1 /\ n = 0 /\ t = <<>>
TraceNext == /\ l <= Len(Trace) /\ l' = l + 1
  /\ CASE e.op = "begin" -> n' = e.ly * e.lx /\ t' = Zero(e.ly * e.lx)
       [] e.op = "set" -> t' = Put(t, e.i, e.j, e.x) /\ UNCHANGED n
       [] e.op = "fill" -> t' = Filled(n, LAMBDA i, j : e.a * i + e.b * j + e.x) /\ UNCHANGED n
  /\ Obs
TraceSpec == TraceInit /\ [][TraceNext]_<<l, t, n>>
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
