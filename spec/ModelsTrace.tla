---------------------------- MODULE ModelsTrace ----------------------------
EXTENDS Models, Json, IOUtils
N == INSTANCE Net
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, net, X, M, cfg, T
vars == <<l, net, X, M, cfg, T>>
e == Trace[l]
Nt(x) == [r |-> x.r, c |-> x.c, bc |-> x.bc, p |-> x.p, d |-> x.d]
(* a move of the Jastrow-dressed model carries the quotient of the Jastrow factors, 2^k; values are then kept times 64 *)
Pow(k) == CASE k = 0 -> 64 [] k = 1 -> 128 [] k = 2 -> 256 [] k = 3 -> 512 [] k = 4 -> 1024 [] k = 5 -> 2048 [] k = 6 -> 4096 [] k = 7 -> 8192 [] k = -1 -> 32 [] k = -2 -> 16 [] k = -3 -> 8 [] k = -4 -> 4 [] k = -5 -> 2 [] k = -6 -> 1
RECURSIVE JSum(_, _, _, _)
JSum(v, n, i, j) == IF i > Len(n) THEN 0 ELSE IF j > Len(n) THEN JSum(v, n, i + 1, i + 2) ELSE v[i][j] * n[i] * n[j] + JSum(v, n, i, j + 1)
Occ(c) == [s \in 1..Len(c) |-> IF c[s] = 2 THEN 0 ELSE 1]
JLog(v, c) == JSum(v, Occ(c), 1, 2)
Tab(n, x, m, c, v) == LET j0 == IF m.name = "tJj" THEN JLog(v, c) ELSE 0
                          Amp(k) == IF m.name = "tJj" THEN Mul(Pow(JLog(v, k) - j0), N!Psi(n, x, n.p, k)) ELSE N!Psi(n, x, n.p, k)
                      IN TLCEval(Table(m, n, c, Amp))
Unchanged == e.cfg = cfg /\ e.tn /\ e.exact   \* the sample is the one that was given
Amplitude == e.amp = T.psi
Optional == {"SpSm_cross", "SC_bond_singlet_h", "SC_bond_singlet_v", "SC_singlet_pair_corr"}
Values == \A k \in DOMAIN e.obs : e.obs[k] = Expected(M, net, cfg, T, k)
Described == /\ \A k \in DOMAIN e.obs : k \in DOMAIN e.meta /\ Len(e.obs[k]) = 2 * e.meta[k]
             /\ \A k \in DOMAIN e.meta : k \in DOMAIN e.obs \/ k \in Optional
Site(i, j) == i * net.c + j + 1
CrossVal(q) == LET a == Site(q[1], q[2]) b == Site(q[3], q[4]) IN IF cfg[a] = 0 /\ cfg[b] = 1 THEN N!Psi(net, X, net.p, [cfg EXCEPT ![a] = 1, ![b] = 0]) ELSE Z0
Cross == /\ Len(e.cross) = ((net.r * (net.r - 1)) \div 2) * net.c * net.c
         /\ \A i, j \in 1..Len(e.cross) : i # j => SubSeq(e.cross[i], 1, 4) # SubSeq(e.cross[j], 1, 4)
         /\ \A i \in 1..Len(e.cross) : LET q == e.cross[i] IN q[1] < q[3] /\ <<q[5], q[6]>> = CrossVal(q)
Holes == e.holes # <<>> => \A s \in 1..Len(cfg) : e.holes[s] = N!Hole(net, N!Pick(X, net.p, cfg), s)
TraceInit == l = 1 /\ net = <<>> /\ X = <<>> /\ M = <<>> /\ cfg = <<>> /\ T = <<>>
TraceNext ==
  /\ l <= Len(Trace) /\ l' = l + 1
  /\ CASE e.op = "begin" -> /\ X' = e.X /\ cfg' = e.cfg /\ net' = Nt(e) /\ M' = [name |-> e.model, par |-> e.par]
                            /\ T' = (IF e.model = "tJj" THEN <<>> ELSE Tab(Nt(e), e.X, M', e.cfg, <<>>))
       [] e.op = "energy" -> UNCHANGED <<net, X, M, cfg, T>> /\ Unchanged /\ Amplitude /\ e.v = T.energy /\ e.mean = T.psi /\ e.close /\ Holes
       [] e.op = "obs" -> UNCHANGED <<net, X, M, cfg, T>> /\ Unchanged /\ Amplitude /\ Values /\ Described /\ e.mean = T.psi /\ e.close
       [] e.op = "sf" -> UNCHANGED <<net, X, M, cfg, T>> /\ Unchanged /\ Amplitude /\ Values /\ Described /\ e.mean = T.psi /\ e.close /\ Cross
       [] e.op = "amp" -> UNCHANGED <<net, X, M, cfg, T>> /\ Unchanged /\ Amplitude /\ e.v = T.psi
       [] e.op = "move" -> UNCHANGED <<net, X, M>> /\ cfg' = e.cfg /\ e.tn /\ e.exact /\ T' = Tab(net, X, M, e.cfg, <<>>) /\ e.amp = T'.psi
       [] e.op = "ferm" -> UNCHANGED <<net, X, M, cfg>> /\ T' = (IF M.name = "tJj" THEN Tab(net, X, M, cfg, e.jas) ELSE T) /\ Unchanged /\ e.psi /\ e.npsi = net.r + net.c
                           /\ \A k \in DOMAIN e.obs : e.obs[k] = Expected(M, net, cfg, T', k)
TraceSpec == TraceInit /\ [][TraceNext]_vars
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
