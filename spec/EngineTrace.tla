---------------------------- MODULE EngineTrace ----------------------------
EXTENDS Engine, Json, IOUtils
N == INSTANCE Net
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, net, X, P
vars == <<l, net, X, P>>
e == Trace[l]
Nt(x) == [r |-> x.r, c |-> x.c, bc |-> x.bc, p |-> x.p, d |-> x.d]
Psi(c) == N!Psi(net, X, net.p, c)
Weigh(c) == LET z == TLCEval(Psi(c)) IN z[1] * z[1] + z[2] * z[2]
nr == Len(P.c0)
Ranks == 1..nr
G == Good(P.c0, Weigh, P.lo, P.hi)
(* the engine of rank r holds configuration c, the common state X and its amplitude *)
Holds(x, c) == x.exact /\ x.tn /\ x.cfg = c /\ x.amp = Psi(c) /\ x.state = X /\ x.bc = net.bc
Started(g) == LET c == Chosen(P.c0, g) IN
  /\ e.m2 = Top(c, Weigh)
  /\ \A r \in Ranks : LET x == e.rk[r][1] IN Holds(x.n, c[r]) /\ x.spr = Ceil(e.total, nr) /\ x.calls = 0
After(c, warm, at) == [r \in Ranks |-> EndOf(Sweeps(P.todo[r], at[r], warm[r], P.wu), c[r])]
AllLegal(c, m2) == \A r \in Ranks : Legal(Weigh(c[r]), m2, P.lo, P.hi)
OnEdge(c, m2) == \E r \in Ranks : Edge(Weigh(c[r]), m2, P.lo, P.hi)
WarmStage(c, warm, at, k) == LET new == After(c, warm, at) IN \A r \in Ranks : LET x == e.rk[r][k + 1] IN
  x.seen = Sweeps(P.todo[r], at[r], warm[r], P.wu) /\ x.m2 = Top(new, Weigh) /\ Holds(x.n, new[r])
Engine == LET g == TLCEval(G) IN IF ~Starts(P.c0, P.on, g) THEN e.verdict = "abort" ELSE
  LET c == Chosen(P.c0, g) m0 == Top(c, Weigh) w == WarmAfter(P.warm, g) z == [r \in Ranks |-> 0]
      c1 == TLCEval(After(c, w, z)) m1 == Top(c1, Weigh)
  IN IF OnEdge(c1, m0) \/ (AllLegal(c1, m0) /\ OnEdge(c1, m1)) THEN TRUE
     ELSE IF ~AllLegal(c1, m0) \/ ~AllLegal(c1, m1) THEN e.verdict = "abort"
     ELSE e.verdict = "ok" /\ Started(g) /\ WarmStage(c, w, z, 1) /\ WarmStage(c1, [r \in Ranks |-> TRUE], z, 2)
TraceInit == l = 1 /\ net = <<>> /\ X = <<>> /\ P = <<>>
TraceNext ==
  /\ l <= Len(Trace) /\ l' = l + 1
  /\ CASE e.op = "start" -> net' = Nt(e) /\ X' = e.X /\ P' = [c0 |-> e.c0, lo |-> e.lo, hi |-> e.hi, on |-> e.on, wu |-> e.wu, warm |-> e.warm, todo |-> e.todo]
       [] e.op = "engine" -> UNCHANGED <<net, X, P>> /\ Engine
       [] e.op = "valid" -> UNCHANGED <<net, X, P>> /\ e.what = (IF Accepts(e.con, e.bc, e.trg, e.r, e.c) THEN "ok" ELSE "refused")
TraceSpec == TraceInit /\ [][TraceNext]_vars
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
