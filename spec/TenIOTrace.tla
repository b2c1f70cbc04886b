----------------------------- MODULE TenIOTrace -----------------------------
EXTENDS TenIO, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, c
e == Trace[l]
k == e.i * c + e.j + 1
TraceInit == l = 1 /\ mat = <<<<>>, <<>>>> /\ fs = <<-1, -1, -1, -1>> /\ ret = TRUE /\ c = 0
TraceNext ==
  /\ l <= Len(Trace) /\ l' = l + 1
  /\ IF e.op = "begin" THEN /\ mat' = [m \in 1..2 |-> [x \in 1..(e.r * e.c) |-> -1]] /\ fs' = <<-1, -1, -1, -1>> /\ ret' = TRUE /\ c' = e.c
     ELSE /\ UNCHANGED c
          /\ CASE e.op = "set" -> SetV(e.m, k, e.v)
               [] e.op = "dealloc" -> Drop(e.m, k)
               [] e.op = "trunc" -> Damage(e.f)
               [] e.op = "rm" -> Remove(e.f)
               [] e.op \in {"dump", "dumpn", "dumpk"} -> Dump(e.m, k, e.f, FALSE)
               [] e.op = "dumpr" -> Dump(e.m, k, e.f, TRUE)
               [] e.op = "load" -> LoadOk(e.m, k, e.f) \/ LoadFail(e.m, k, e.f, (IF e.m = 1 THEN e.c1 ELSE e.c2)[k])
  /\ e.ret = ret' /\ e.fs = fs' /\ e.c1 = mat'[1] /\ e.c2 = mat'[2]
TraceSpec == TraceInit /\ [][TraceNext]_<<l, mat, fs, ret, c>>
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
