----------------------------- MODULE ObsMatTrace -----------------------------
EXTENDS ObsMat, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l
e == Trace[l]
a == e.a
Flat(m) == [n \in 1..(m.r * m.c) |-> m.cell[n]]
Obs(o, m) == /\ o.r = m.r /\ o.c = m.c /\ o.n = m.r * m.c /\ o.flat = Flat(m) /\ o.cells = Flat(m) /\ o.sites = Flat(m)
             /\ o.oob          \* every probe just outside the lattice was refused
TraceInit == l = 1 /\ t = [k \in 1..2 |-> Mk(0, 0, 0)]
Acc(k, i, j) == e.ok = In(t[k], i, j)
TraceNext ==
  /\ l <= Len(Trace) /\ l' = l + 1
  /\ CASE e.op = "begin" -> t' = [k \in 1..2 |-> Mk(0, 0, 0)]
       [] e.op = "resize" -> Resize(a[1], a[2], a[3], a[4])
       [] e.op = "ctor" -> Resize(a[1], a[2], a[3], a[4])
       [] e.op \in {"set", "sets"} -> Put(a[1], a[2], a[3], a[4]) /\ Acc(a[1], a[2], a[3])
       [] e.op \in {"add", "adds"} -> AddTo(a[1], a[2], a[3], a[4]) /\ Acc(a[1], a[2], a[3])
       [] e.op = "copy" -> CopyT(a[1], a[2])
       [] e.op = "extract" -> ExtractT(a[1], a[2], a[3], a[4]) /\ e.ext = Flat(t[a[1]])
  /\ Obs(e.t1, t'[1]) /\ Obs(e.t2, t'[2])
TraceSpec == TraceInit /\ [][TraceNext]_<<l, t>>
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
