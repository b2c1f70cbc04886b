---------------------------- MODULE PsiConsTrace ----------------------------
EXTENDS PsiCons, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l
e == Trace[l]
Abs(x) == IF x < 0 THEN -x ELSE x
(* sr, si = n*mean/scale (x1000); d2 = (relerr*|mean|*n/scale)^2 (x1000) *)
SumOk == /\ e.sr_ok /\ e.si_ok /\ e.d2_ok
         /\ \E r \in Refs(e.z) : LET s == S(e.z, r) IN
              /\ Abs(e.sr - 1000 * s[1]) <= 2 /\ Abs(e.si - 1000 * s[2]) <= 2
              /\ Abs(e.d2 - 1000 * Dev2(e.z, r)) <= 4
Summary == IF Len(e.z) = 0 \/ \A i \in DOMAIN e.z : e.z[i] = <<0, 0>>
           THEN e.zero_mean /\ e.zero_err ELSE SumOk
Min(a, b) == IF a < b THEN a ELSE b
Format == /\ e.wellformed
          /\ e.shown = SubSeq(e.z, 1, Min(Len(e.z), e.m))
          /\ e.total = (IF Len(e.z) > e.m THEN Len(e.z) ELSE -1)
TraceInit == l = 1
TraceNext == /\ l <= Len(Trace) /\ l' = l + 1
             /\ CASE e.op = "begin" -> TRUE [] e.op = "sum" -> Summary [] e.op = "fmt" -> Format
TraceSpec == TraceInit /\ [][TraceNext]_l
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
