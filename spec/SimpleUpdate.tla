---------------------------- MODULE SimpleUpdate ----------------------------
(* The simple-update executor.
   First part: the sweep loop - advanced stopping, per-step metrics, run summary.  Energies, tolerances, weights and steps are in eighths,
   so every comparison below is the exact one.  A configuration is <<energy_abs, energy_rel, lambda_rel, patience, min_steps>> or <<>> (none);
   a sweep is [e0, en, te (-1: none), d |-> <<dmin, dmax>>, lam |-> weights of each bond].
   Second part: what a sweep does to the state for Hamiltonians diagonal in the basis, as an integer energy per configuration. *)
EXTENDS States
Abs(x) == IF x < 0 THEN 0 - x ELSE x
Max2(a, b) == IF a > b THEN a ELSE b
Valid(cfg) == cfg = <<>> \/ (cfg[1] >= 0 /\ cfg[2] >= 0 /\ cfg[3] >= 0 /\ cfg[4] > 0 /\ cfg[5] > 0)
EnergyOK(cfg, p, c) == 8 * Abs(c - p) <= Max2(8 * cfg[1], cfg[2] * Max2(8, Max2(Abs(p), Abs(c))))
RECURSIVE Sq(_, _)
Sq(v, k) == IF k = 0 THEN 0 ELSE v[k] * v[k] + Sq(v, k - 1)
Diff(a, b) == [i \in 1..Len(a) |-> a[i] - b[i]]
SameDims(a, b) == Len(a) = Len(b) /\ \A i \in 1..Len(a) : Len(a[i]) = Len(b[i])
Root(n) == \E r \in 0..300 : r * r = n
(* relative drift of one bond's weights against the tolerance t/8: the set of verdicts rounding permits *)
Drift(t, a, b) == LET p == Sq(a, Len(a))  d == Sq(Diff(b, a), Len(a)) IN
  IF d = 0 THEN {TRUE} ELSE IF p = 0 THEN {FALSE} ELSE IF 64 * d = t * t * p /\ ~(Root(d) /\ Root(p)) THEN BOOLEAN ELSE {64 * d <= t * t * p}
DriftOK(t, a, b) == LET v == TLCEval([i \in 1..Len(a) |-> Drift(t, a[i], b[i])]) IN
  IF \E i \in 1..Len(a) : v[i] = {FALSE} THEN {FALSE} ELSE IF \E i \in 1..Len(a) : v[i] = BOOLEAN THEN BOOLEAN ELSE {TRUE}
(* does sweep k count as converged? *)
Pass(cfg, script, k) == IF k < 2 \/ k < cfg[5] THEN {FALSE} ELSE LET a == script[k - 1] b == script[k] IN
  IF ~SameDims(a.lam, b.lam) \/ ~EnergyOK(cfg, a.e0, b.e0) THEN {FALSE} ELSE DriftOK(cfg[3], a.lam, b.lam)
RECURSIVE Runs(_, _, _, _)
Runs(cfg, script, k, streak) == \* possible <<sweeps done, converged>>, k done so far
  IF k = Len(script) THEN {<<k, FALSE>>}
  ELSE IF cfg = <<>> THEN Runs(cfg, script, k + 1, 0)
  ELSE UNION {LET s == IF ok THEN streak + 1 ELSE 0 IN IF s >= cfg[4] THEN {<<k + 1, TRUE>>} ELSE Runs(cfg, script, k + 1, s) : ok \in Pass(cfg, script, k + 1)}
Metrics(script, n, tau) == [k \in 1..n |-> [i |-> k - 1, tau |-> tau, e0 |-> script[k].e0, en |-> script[k].en, te |-> script[k].te, ch |-> k > 1 /\ script[k].d # script[k - 1].d]]
-----------------------------------------------------------------------------
(* ---- energies of basis configurations; tables are indexed by the levels of the sites in leg order *)
Entry(t, P, lev) == t[NumberOf(P, lev) + 1]
RECURSIVE SumOver(_, _, _)
SumOver(terms, P, c) == \* terms: sequence of <<table, sites>>
  IF terms = <<>> THEN 0 ELSE LET h == Head(terms) IN Entry(h[1], P, [j \in 1..Len(h[2]) |-> c[h[2][j]]]) + SumOver(Tail(terms), P, c)
Places(G, kind) == \* positions of the horizontal bonds, vertical bonds, squares, row by row
  LET R == IF G.bc = 1 \/ kind = "h" THEN G.r ELSE G.r - 1  C == IF G.bc = 1 \/ kind = "v" THEN G.c ELSE G.c - 1
  IN [k \in 1..(R * C) |-> <<(k - 1) \div C, (k - 1) % C>>]
Over(G, kind, t(_)) == LET p == Places(G, kind) IN [k \in 1..Len(p) |-> <<t(k), Sites(G, kind, p[k][1], p[k][2])>>]
Diagonals(G, t) == LET p == Places(G, "x") IN \* of every square: upper left - lower right, upper right - lower left
  [k \in 1..Len(p) |-> <<t, <<Id(G, p[k][1], p[k][2]), Id(G, p[k][1] + 1, p[k][2] + 1)>>>>] \o [k \in 1..Len(p) |-> <<t, <<Id(G, p[k][1], p[k][2] + 1), Id(G, p[k][1] + 1, p[k][2])>>>>]
OnSite(on) == [s \in 1..Len(on) |-> <<on[s], <<s>>>>]
Bonds2(G, nn, hh, vv) == LET hor(k) == IF nn = <<>> THEN hh[k] ELSE nn  ver(k) == IF nn = <<>> THEN vv[k] ELSE nn IN Over(G, "h", hor) \o Over(G, "v", ver)
(* triangular model on the square lattice: the left column and the top row, and every lower right triangle; then the bottom row and the right
   column, and every upper left triangle - each half a full covering of the lattice *)
Column0(G, t, j) == [k \in 1..(G.r - 1) |-> <<t, <<Id(G, k - 1, j), Id(G, k, j)>>>>]
Row0(G, t, i) == [k \in 1..(G.c - 1) |-> <<t, <<Id(G, i, k - 1), Id(G, i, k)>>>>]
Tri(G, t, kind, dj) == LET p == Places(G, "x") IN [k \in 1..Len(p) |-> <<t, Sites(G, kind, p[k][1], p[k][2] + dj)>>]
HalfA(G, nn, tri) == Column0(G, nn, 0) \o Row0(G, nn, 0) \o Tri(G, tri, "C", 1)
HalfB(G, nn, tri) == Column0(G, nn, G.c - 1) \o Row0(G, nn, G.r - 1) \o Tri(G, tri, "B", 0)
Terms(G, x) == CASE x.kind = "N" -> Bonds2(G, x.nn, x.hh, x.vv) \o OnSite(x.on)
                 [] x.kind = "X" -> Bonds2(G, x.nn, <<>>, <<>>) \o Diagonals(G, x.nnn) \o OnSite(x.on)
                 [] x.kind = "T" -> HalfA(G, x.nn, x.tri) \o HalfB(G, x.nn, x.tri)
RECURSIVE Two(_)
Two(k) == IF k = 0 THEN 1 ELSE 2 * Two(k - 1)
Energy(G, P, x, c) == SumOver(Terms(G, x), P, c)
Evolve(psi, G, P, x) == LET n == G.r * G.c  ts == TLCEval(Terms(G, x))  f == TLCEval([k \in 0..(Pow(P, n) - 1) |-> IF At(psi, k) = <<0, 0>> THEN 0 ELSE Two(0 - x.tau * x.n * SumOver(ts, P, Config(P, n, k)))])
  IN TLCEval([i \in 1..Len(psi) |-> psi[i] * f[(i - 1) \div 2]])
(* ---- 2 exp(tau N) for N^3 = 0, matrices m[i][o] flat *)
RECURSIVE MatDot(_, _, _, _, _, _)
MatDot(a, b, q, i, o, j) == IF j < 0 THEN <<0, 0>> ELSE Add(MatDot(a, b, q, i, o, j - 1), Mul(At(a, i * q + j), At(b, j * q + o)))
MatMul(a, b, q) == Flat(TLCEval([k \in 1..(q * q) |-> TLCEval(MatDot(a, b, q, (k - 1) \div q, (k - 1) % q, q - 1))]), q * q)
Exp2(m, q, tau) == LET s == MatMul(m, m, q) IN [i \in 1..(2 * q * q) |-> 2 * tau * m[i] + tau * tau * s[i] + (IF i % 2 = 1 /\ ((i - 1) \div 2) % (q + 1) = 0 THEN 2 ELSE 0)]
=============================================================================
