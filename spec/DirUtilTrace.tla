---------------------------- MODULE DirUtilTrace ----------------------------
EXTENDS DirUtil, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, k, fn, path
e == Trace[l]
(* the path spellings used, and the depth they denote; 0: not creatable *)
Depth(p) == CASE p \in {"x", "x/", "./x", "l/"} -> 1
              [] p \in {"x/y", "x/y/", "x//y", "./x/y", "x/./y", "x/../x/y", "l/y"} -> 2
              [] p \in {"x/y/z", "x/y/z/", "x/y//z//", "./x/y/z", "x/y/./z", "x/y/../y/z", "l/y/z"} -> 3
              [] OTHER -> 0
(* a trailing slash names a directory only *)
Slashed == {"x/", "x/y/", "x/y/z/", "x/y//z//", "l/"}
TraceInit == l = 1 /\ k = [d \in Depths |-> 0] /\ fn = "" /\ path = ""
Begin == e.op = "begin" /\ k' = e.k /\ fn' = e.fn /\ path' = e.path
(* with no fault a creator's report is the truth about the target; with an injected mkdir failure likewise *)
Ret == /\ e.op = "ret" /\ UNCHANGED <<fn, path>> /\ k' = e.k /\ e.kept
       /\ e.r \in {0, 1}
       /\ IF Depth(path) = 0 THEN e.r = 0 /\ e.k = EnvAct(k, e.act)
          ELSE IF fn = "exist" THEN /\ \E b \in {k, EnvAct(k, e.act)} : (e.r = 1) = IF path \in Slashed THEN b[Depth(path)] = 1 ELSE b[Depth(path)] # 0
                                    /\ e.k = EnvAct(k, e.act)
          ELSE /\ (e.r = 1) = (e.k[Depth(path)] = 1)
               /\ Left(k, e.act, Depth(path), e.k)
               (* no excuse: unless a fault was injected or a file is in the way, it must have succeeded *)
               /\ (~e.faulted /\ \A d \in 1..Depth(path) : e.k[d] # 2) => e.r = 1
TraceNext == l <= Len(Trace) /\ l' = l + 1 /\ (Begin \/ Ret)
TraceSpec == TraceInit /\ [][TraceNext]_<<l, k, fn, path>>
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
