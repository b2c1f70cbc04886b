------------------------------ MODULE NetTrace ------------------------------
(* Every amplitude, replacement trace and hole reported by a contractor is the exact contraction of the network as it is now:
   the state's components picked by the current configuration, with the stated sites replaced. *)
EXTENDS Net, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, net, X, cfg, memo
vars == <<l, net, X, cfg, memo>>
e == Trace[l]
RECURSIVE With(_, _)
With(c, rep) == IF rep = <<>> THEN c ELSE With([c EXCEPT ![Head(rep)[1]] = Head(rep)[2]], Tail(rep))
P == net.p
Ask(c) == IF c \in DOMAIN memo THEN memo[c] ELSE Psi(net, X, P, c)
Learn(c, v) == memo' = (IF c \in DOMAIN memo THEN memo ELSE memo @@ (c :> v))
TraceInit == l = 1 /\ net = <<>> /\ X = <<>> /\ cfg = <<>> /\ memo = <<>>
TraceNext ==
  /\ l <= Len(Trace) /\ l' = l + 1
  /\ CASE e.op = "begin" -> /\ net' = [r |-> e.r, c |-> e.c, bc |-> e.bc, p |-> e.p, d |-> e.d] /\ X' = e.X /\ cfg' = e.cfg /\ memo' = <<>>
       [] e.op = "amp" -> /\ UNCHANGED <<net, X, cfg>> /\ e.exact
                          /\ LET c == With(cfg, e.rep) IN e.v = Ask(c) /\ Learn(c, e.v)
       [] e.op = "set" -> /\ UNCHANGED <<net, X>> /\ e.exact
                          /\ LET c == With(cfg, e.rep) IN e.cfg = c /\ cfg' = c /\ e.v = Ask(c) /\ Learn(c, e.v)
       [] e.op = "hole" -> UNCHANGED <<net, X, cfg, memo>> /\ e.exact /\ e.v = Hole(net, TLCEval(Pick(X, P, cfg)), e.s)
       [] e.op = "lin" -> UNCHANGED <<net, X, cfg, memo>> /\ e.exact /\ \A k \in 1..2 : e.h[k] - e.v[k] \in -200..200 \* generic tensors, in units of 1e-8
TraceSpec == TraceInit /\ [][TraceNext]_vars
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
