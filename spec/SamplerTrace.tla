---------------------------- MODULE SamplerTrace ----------------------------
EXTENDS Sampler, Json, IOUtils
N == INSTANCE Net
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, net, X, w, cfg
vars == <<l, net, X, w, cfg>>
e == Trace[l]
Psi(c) == N!Psi(net, X, net.p, c)
W2(v) == v[1] * v[1] + v[2] * v[2]
K == net.kind
Tot == Total(w, DOMAIN w)
Q(c) == (10000 * w[c]) \div Tot
Cnt(f, c) == LET I == {i \in 1..Len(f) : f[i][1] = c} IN IF I = {} THEN 0 ELSE f[CHOOSE i \in I : TRUE][2]
RECURSIVE SumCnt(_, _)
SumCnt(f, i) == IF i = 0 THEN 0 ELSE f[i][2] + SumCnt(f, i - 1)
InSector(f) == (\A i \in 1..Len(f) : f[i][1] \in DOMAIN w /\ w[f[i][1]] > 0) /\ \A i, j \in 1..Len(f) : i # j => f[i][1] # f[j][1]
Orders == IF net.r * net.c = 4 THEN {[i \in 1..4 |-> Bonds(2, 2)[f[i]]] : f \in Perms(4)} ELSE {Bonds(net.r, net.c), VBonds(net.r, net.c) \o HBonds(net.r, net.c)}
Fits(p, f, n) == \A c \in DOMAIN w : Likely(Cnt(f, c), n, p[c] \div (U \div 10000))
TraceInit == l = 1 /\ net = <<>> /\ X = <<>> /\ w = <<>> /\ cfg = <<>>
TraceNext ==
  /\ l <= Len(Trace) /\ l' = l + 1
  /\ CASE e.op = "begin" -> /\ X' = e.X /\ cfg' = e.cfg
                            /\ net' = [r |-> e.r, c |-> e.c, bc |-> e.bc, p |-> e.p, d |-> e.d, kind |-> e.kind]
                            /\ w' = (IF e.table THEN LET nn == [r |-> e.r, c |-> e.c, bc |-> e.bc, d |-> e.d] IN TLCEval([c \in Sector(e.kind, e.p, e.cfg) |-> W2(N!Psi(nn, e.X, e.p, c))]) ELSE <<>>)
       [] e.op = "sweep" -> \* one sweep of the running chain: configuration, amplitude, network and acceptance belong together
            /\ UNCHANGED <<net, X, w>> /\ cfg' = e.after /\ e.exact /\ e.nrates = 1 /\ e.whole
            /\ Kept(K, net.p, cfg, e.after) /\ \A s \in 1..Len(cfg) : e.after[s] \in 0..(net.p - 1)
            /\ LET v == Psi(e.after) IN W2(v) > 0 /\ e.v = v /\ e.again = v
            /\ e.tries = Tries(K, net.r, net.c) /\ e.k \in 0..e.tries /\ (e.after # cfg => e.k > 0)
            /\ (e.must => e.k = e.tries)          \* all weights equal, every try has an alternative, rejection-free update
       [] e.op = "same" -> UNCHANGED <<net, X, w, cfg>> /\ e.same
       [] e.op = "pi" -> \* started from the weights themselves, a sweep ends distributed by the weights
            /\ UNCHANGED <<net, X, w, cfg>> /\ InSector(e.cnt) /\ SumCnt(e.cnt, Len(e.cnt)) = e.n
            /\ \A c \in DOMAIN w : LET d == 2 * (Cnt(e.starts, c) * Tot - e.ask * w[c]) IN d <= Tot /\ 0 - d <= Tot   \* rounding
            /\ \A c \in DOMAIN w : Likely(Cnt(e.cnt, c), e.n, Q(c))
       [] e.op = "kern" -> \* exchange: the sweep's transition probabilities, for some order of the bonds
            /\ UNCHANGED <<net, X, w, cfg>> /\ InSector(e.cnt) /\ SumCnt(e.cnt, Len(e.cnt)) = e.n
            /\ (IF K = "exp" THEN Fits(RChain(w, At(w, e.from), PBonds(net.r, net.c), 2 * net.r * net.c), e.cnt, e.n)
                ELSE \E o \in Orders : Fits(Chain(w, At(w, e.from), o), e.cnt, e.n))
       [] e.op = "visit" -> \* a long run: exactly the configurations of positive weight, in proportion to it
            /\ UNCHANGED <<net, X, w, cfg>> /\ InSector(e.cnt) /\ SumCnt(e.cnt, Len(e.cnt)) = e.n
            /\ \A c \in DOMAIN w : 20 * Cardinality(DOMAIN w) * w[c] >= Tot => Cnt(e.cnt, c) > 0
TraceSpec == TraceInit /\ [][TraceNext]_vars
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
