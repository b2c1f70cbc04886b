--------------------------- MODULE EstimateTrace ---------------------------
EXTENDS Estimate, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, net, X, M, D
vars == <<l, net, X, M, D>>
e == Trace[l]
Nt(x) == [r |-> x.r, c |-> x.c, bc |-> x.bc, p |-> x.p, d |-> x.d]
Keep == UNCHANGED <<net, X, M, D>>
n == net.r * net.c
DataSeq(nt, x, m, q) == TLCEval([k \in 1..Len(q) |-> TLCEval(Data(nt, x, m, q[k]))])
(* ---- enumerations *)
Ones(c) == Cardinality({i \in 1..Len(c) : c[i] = 1})
Sector == {c \in [1..(e.r * e.c) -> {0, 1}] : e.pick < 0 \/ Ones(c) = e.pick}
Enumerated == Len(e.all) = Cardinality(Sector) /\ {e.all[k] : k \in 1..Len(e.all)} = Sector
(* ---- exact summation *)
Exact == LET w == Weight(D) G(s, b) == ExactGradient(D, X, net.p, s, b) IN
  /\ e.verdict = "ok" /\ e.w = w /\ e.rk[1].exact /\ e.rk[1].e = ExactEnergy(D) /\ SameAll(e.rk[1].g, n, net.p, G)
  /\ \A r \in 1..Len(e.rk) : e.rk[r].err
Average(key) == LET q == [k \in 1..Len(D) |-> MM!Expected(M, net, D[k].cfg, D[k].tab, key)]  m == Len(q[1])
                    S(i) == LET G(k) == CMul(Conj(D[k].psi), <<q[k][2 * i - 1], q[k][2 * i]>>) IN SumZ([k \in 1..Len(D) |-> k], G, Len(D))
                IN TLCEval([i \in 1..m |-> S((i + 1) \div 2)[2 - (i % 2)]])
Measure == /\ e.verdict = "ok" /\ e.w = Weight(D) /\ e.rk[1].exact /\ DOMAIN e.rk[1].obs # {}
           /\ \A k \in DOMAIN e.rk[1].obs : e.rk[1].obs[k] = Average(k)
           /\ {"energy", "spin_z"} \subseteq DOMAIN e.rk[1].obs
(* ---- sampling *)
Of(r, i) == e.todo[r][i * M.sweeps]                        \* the configuration behind sample i of rank r
Local(r) == TLCEval([i \in 1..e.spr |-> Of(r, i)])
RECURSIVE Cat(_)
Cat(r) == IF r = 0 THEN <<>> ELSE Cat(r - 1) \o Local(r)
RECURSIVE Front(_, _)
Front(S, r) == IF r = 0 THEN <<>> ELSE Front(S, r - 1) \o SubSeq(S, (r - 1) * e.spr + 1, (r - 1) * e.spr + Binned(e.spr))
Kept(S) == TLCEval(Front(S, M.ranks))
Ranks == 1..M.ranks
CallsOf(r) == SubSeq(e.todo[r], 1, e.spr * M.sweeps)
Rate(i, k) == LET c == i * M.sweeps IN IF k = 1 THEN c % 5 ELSE c % 3
RECURSIVE RateSum(_, _)
RateSum(i, k) == IF i = 0 THEN 0 ELSE Rate(i, k) + RateSum(i - 1, k)
Common(S) ==
  /\ e.verdict = "ok" /\ Len(e.rk) = M.ranks /\ e.spr = (M.total + M.ranks - 1) \div M.ranks /\ e.N = M.ranks * e.spr /\ e.K = M.ranks * Binned(e.spr)
  /\ \A k \in 1..Len(S) : e.q % Abs2(S[k].psi) = 0
  /\ \A r \in Ranks : LET x == e.rk[r] IN /\ x.exact /\ x.e = MeanEnergy(Kept(S), e.q) /\ x.seen = CallsOf(r) /\ x.cfg = e.todo[r][e.spr * M.sweeps]
                                           /\ x.state = e.X /\ x.acc = <<RateSum(e.spr, 1), RateSum(e.spr, 2)>> /\ x.err
Eval == LET S == DataSeq(net, e.X, M, Cat(M.ranks)) G(s, b) == MeanGradient(S, Kept(S), e.q, e.X, net.p, s, b) O(s, b) == MeanO(S, e.q, e.X, net.p, s, b) IN
  /\ Common(S) /\ SameAll(e.rk[1].g, n, net.p, G) /\ \A r \in Ranks : e.rk[r].has = M.sr /\ e.rk[r].norm
  /\ (M.sr => SameAll(e.rk[1].om, n, net.p, O))
  /\ \A r \in Ranks : LET x == e.rk[r] off == (r - 1) * e.spr IN
       /\ x.es = TLCEval([k \in 1..(2 * e.spr) |-> LET d == S[off + ((k + 1) \div 2)] v == Scale(Co(d, e.q), CMul(Conj(d.psi), d.a)) IN v[2 - (k % 2)]])
       /\ Len(x.os) = (IF M.sr THEN e.spr ELSE 0)
       /\ \A i \in 1..Len(x.os) : LET d == S[off + i] Q(s, b) == SampleO(d, e.q, e.X, net.p, s, b) IN
             \A s \in 1..n : \A b \in 0..(net.p - 1) : LET t == x.os[i][(s - 1) * net.p + b + 1] v == Q(s, b) IN IF v = <<>> THEN \A z \in 1..Len(t) : t[z] = 0 ELSE Same(t, v)
Energy == Common(DataSeq(net, e.X, M, Cat(M.ranks)))
TraceInit == l = 1 /\ net = <<>> /\ X = <<>> /\ M = <<>> /\ D = <<>>
TraceNext ==
  /\ l <= Len(Trace) /\ l' = l + 1
  /\ CASE e.op = "configs" -> Keep /\ Enumerated
       [] e.op = "begin" -> net' = Nt(e) /\ X' = e.X /\ M' = [name |-> e.model, par |-> e.par] /\ D' = DataSeq(Nt(e), e.X, M', e.use)
       [] e.op = "exact" -> Keep /\ Exact
       [] e.op = "measure" -> Keep /\ Measure
       [] e.op = "mc" -> net' = Nt(e) /\ X' = e.X /\ M' = [name |-> e.model, par |-> e.par, total |-> e.total, ranks |-> e.ranks, sweeps |-> e.sweeps, sr |-> e.sr] /\ D' = <<>>
       [] e.op = "eval" -> Keep /\ Eval
       [] e.op = "energy" -> Keep /\ Energy
TraceSpec == TraceInit /\ [][TraceNext]_vars
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
