------------------------------ MODULE Models ------------------------------
(* Hamiltonians of the built-in models as lists of terms, and what their solvers report for one configuration:
   the local energy  E(S) = sum over S' of <S'|H|S> conj(psi(S') / psi(S))  and the observables.
   All values are kept as  4 conj(value) psi(S), a Gaussian integer for integer couplings and integer states.
   G = [r, c, bc]; sites row-major from 1; M = [name, par]. *)
EXTENDS Integers, Sequences, FiniteSets, TLC
Z0 == <<0, 0>>
Add(a, b) == <<a[1] + b[1], a[2] + b[2]>>
Mul(k, a) == <<k * a[1], k * a[2]>>
RECURSIVE SumSeq(_, _)
SumSeq(q, n) == IF n = 0 THEN Z0 ELSE Add(SumSeq(q, n - 1), q[n])
Sum(q) == SumSeq(q, Len(q))
(* ---- bonds, in the order in which the observables list them *)
S(G, i, j) == (i % G.r) * G.c + (j % G.c) + 1
Grid(n, m, F(_, _)) == [k \in 1..(n * m) |-> F((k - 1) \div m, (k - 1) % m)]
Pairs(G, cls) ==
  LET rr == IF G.bc = 1 THEN G.r ELSE G.r - 1  cc == IF G.bc = 1 THEN G.c ELSE G.c - 1
      H(i, j) == <<S(G, i, j), S(G, i, j + 1)>>  V(i, j) == <<S(G, i, j), S(G, i + 1, j)>>
      D(i, j) == <<S(G, i, j), S(G, i + 1, j + 1)>>  U(i, j) == <<S(G, i + 1, j), S(G, i, j + 1)>>
      L(i, j) == <<S(G, i, j), S(G, i + 1, j + G.c - 1)>>
      A(i, j) == <<S(G, i + 1, j), S(G, i, j + 2)>>  B(i, j) == <<S(G, i + 2, j), S(G, i, j + 1)>>
  IN CASE cls = "h" -> Grid(G.r, cc, H) [] cls = "v" -> Grid(rr, G.c, V) [] cls = "dr" -> Grid(rr, cc, D) [] cls = "ur" -> Grid(rr, cc, U) [] cls = "dl" -> Grid(G.r, G.c, L)
       [] cls = "sa" -> (IF G.r < 2 \/ G.c < 3 THEN <<>> ELSE Grid(G.r - 1, G.c - 2, A)) [] cls = "sb" -> (IF G.r < 3 \/ G.c < 2 THEN <<>> ELSE Grid(G.r - 2, G.c - 1, B))
Classes(G, n) == CASE n = "xxz" -> {"h", "v"} [] n = "j1j2" -> (IF G.bc = 1 THEN {"h", "v", "dr", "dl"} ELSE {"h", "v", "dr", "ur"}) [] n = "tri" -> {"h", "v", "ur"}
   [] n = "trij2" -> {"h", "v", "ur", "dr", "sa", "sb"} [] n = "tfim" -> {"h", "v"} [] n \in {"sf", "tJ", "tJj"} -> {"h", "v", "dr", "ur"} [] n \in {"hub", "tJn"} -> {"h", "v"}
Near(cls) == cls \in {"h", "v"}
(* ---- one bond term acting on the local states x, y: diagonal part (times 4) and moves <<x', y', coefficient times 4>> *)
Spin(jz, jxy, x, y) == IF x = y THEN <<jz, {}>> ELSE <<0 - jz, {<<y, x, 2 * jxy>>}>>
Nel(x) == CASE x = 0 -> 2 [] x = 3 -> 0 [] OTHER -> 1
Hop(t, x, y) == \* Hubbard: 0 pair, 1 up, 2 down, 3 empty; the order of creation puts up in front of down on a site
  CASE x = y -> {} [] Nel(x) + Nel(y) = 1 -> {<<y, x, 0 - t>>} [] Nel(x) + Nel(y) = 3 -> {<<y, x, t>>}
    [] x = 1 /\ y = 2 -> {<<3, 0, 0 - t>>, <<0, 3, 0 - t>>} [] x = 2 /\ y = 1 -> {<<3, 0, t>>, <<0, 3, t>>} [] OTHER -> {<<1, 2, 0 - t>>, <<2, 1, t>>}
Term(M, cls, x, y) ==
  LET p == M.par n == M.name IN
  CASE n = "xxz" -> Spin(p[1], p[2], x, y)
    [] n = "j1j2" -> (IF Near(cls) THEN Spin(p[1], p[2], x, y) ELSE Spin(p[3], p[4], x, y))
    [] n = "tri" -> Spin(1, 1, x, y)
    [] n = "trij2" -> (IF cls \in {"h", "v", "ur"} THEN Spin(1, 1, x, y) ELSE Spin(p[1], p[1], x, y))
    [] n = "tfim" -> <<(IF x = y THEN -4 ELSE 4), {}>>
    [] n = "sf" -> (IF Near(cls) THEN <<4 * p[3] * (1 - x) * (1 - y), IF x = y THEN {} ELSE {<<y, x, (0 - 4) * p[1]>>}>> ELSE <<0, IF x = y THEN {} ELSE {<<y, x, (0 - 4) * p[2]>>}>>)
    [] n = "hub" -> <<0, Hop(4 * p[1], x, y)>>
    [] n \in {"tJ", "tJn", "tJj"} -> \* 0 up, 1 down, 2 empty;   t, t2, J, V, mu
        LET J == p[3] Vn == IF n = "tJn" THEN 0 ELSE p[4] IN
        IF Near(cls) THEN (IF x = y THEN <<IF x = 2 THEN 0 ELSE 4 * Vn, {}>> ELSE IF x = 2 \/ y = 2 THEN <<0, {<<y, x, (0 - 4) * p[1]>>}>> ELSE <<4 * Vn - 2 * J, {<<y, x, 2 * J>>}>>)
        ELSE <<0, IF x # y /\ (x = 2 \/ y = 2) THEN {<<y, x, (0 - 4) * p[2]>>} ELSE {}>>
Count(F(_), cfg, n) == LET q == [i \in 1..n |-> <<F(cfg[i]), 0>>] IN Sum(q)[1]
Sz4(M, x) == CASE M.name = "hub" -> (CASE x = 1 -> 2 [] x = 2 -> -2 [] OTHER -> 0) [] M.name \in {"tJ", "tJn", "tJj"} -> (CASE x = 0 -> 2 [] x = 1 -> -2 [] OTHER -> 0) [] OTHER -> 4 * x - 2
Dens(M, x) == CASE M.name = "hub" -> Nel(x) [] M.name = "sf" -> 1 - x [] OTHER -> (IF x = 2 THEN 0 ELSE 1)
Onsite(M, cfg) == \* diagonal terms of single sites, times 4
  LET n == M.name p == M.par El(x) == Dens(M, x) Db(x) == IF x = 0 THEN 1 ELSE 0 IN
  CASE n \in {"xxz", "j1j2"} -> (0 - p[5]) * Sz4(M, cfg[1])
    [] n = "hub" -> 4 * (p[2] * Count(Db, cfg, Len(cfg)) - p[3] * Count(El, cfg, Len(cfg)))
    [] n \in {"tJ", "tJn", "tJj"} -> (0 - 4) * p[5] * Count(El, cfg, Len(cfg))
    [] OTHER -> 0
(* ---- values; Amp(cfg) is the amplitude of a configuration, Wt(cfg, a, b) an extra factor <<times, over>> of a move (Jastrow) *)
RECURSIVE SumSet(_)
SumSet(q) == IF q = {} THEN Z0 ELSE LET m == CHOOSE x \in q : TRUE IN Add(m[2], SumSet(q \ {m}))
SumMoves(mv, a, b, cfg, Amp(_)) == SumSet({<<m, Mul(m[3], Amp([cfg EXCEPT ![a] = m[1], ![b] = m[2]]))>> : m \in mv})
BondVal(M, cls, pr, cfg, psi, Amp(_)) == LET t == Term(M, cls, cfg[pr[1]], cfg[pr[2]]) IN Add(Mul(t[1], psi), SumMoves(t[2], pr[1], pr[2], cfg, Amp))
Bonds(M, G, cls, cfg, psi, Amp(_)) == LET q == Pairs(G, cls) IN TLCEval([k \in 1..Len(q) |-> TLCEval(BondVal(M, cls, q[k], cfg, psi, Amp))])
Flips(M, cfg, Amp(_)) == IF M.name # "tfim" THEN <<>> ELSE TLCEval([s \in 1..Len(cfg) |-> TLCEval(Mul(4, Amp([cfg EXCEPT ![s] = 1 - cfg[s]])))])
RowPairs(G) == [i \in 1..(G.c \div 2) |-> <<S(G, G.r \div 2, G.c \div 4), S(G, G.r \div 2, (G.c \div 4) + i)>>]
HasRow(M, G) == G.bc = 0 /\ M.name \in {"xxz", "j1j2", "tri", "trij2"}
RowFlip(M, G, cfg, Amp(_)) == IF ~HasRow(M, G) THEN <<>> ELSE LET q == RowPairs(G) IN TLCEval([i \in 1..Len(q) |-> LET a == q[i][1] b == q[i][2] IN IF cfg[a] = cfg[b] THEN Z0 ELSE TLCEval(Mul(4, Amp([cfg EXCEPT ![a] = 1 - cfg[a], ![b] = 1 - cfg[b]])))])
RECURSIVE SumOver(_, _)
SumOver(f, D) == IF D = {} THEN Z0 ELSE LET k == CHOOSE x \in D : TRUE IN Add(Sum(f[k]), SumOver(f, D \ {k}))
(* everything reported about a configuration *)
Table(M, G, cfg, Amp(_)) ==
  LET psi == TLCEval(Amp(cfg)) bd == TLCEval([c \in Classes(G, M.name) |-> Bonds(M, G, c, cfg, psi, Amp)]) fl == Flips(M, cfg, Amp)
  IN [psi |-> psi, bond |-> bd, flip |-> fl, row |-> RowFlip(M, G, cfg, Amp),
      energy |-> Add(Add(SumOver(bd, DOMAIN bd), Mul(Onsite(M, cfg), psi)), Mul(0 - (IF M.name = "tfim" THEN M.par[1] ELSE 0), Sum(fl)))]
Flat(q) == [k \in 1..(2 * Len(q)) |-> q[(k + 1) \div 2][2 - (k % 2)]]
Diag(psi, q) == Flat([k \in 1..Len(q) |-> Mul(q[k], psi)])     \* diagonal observables: q = 4 times the value
RECURSIVE Tri(_, _, _, _)
Tri(f, n, i, j) == IF i > n THEN <<>> ELSE IF j > n THEN Tri(f, n, i + 1, i + 1) ELSE <<f[i] * f[j]>> \o Tri(f, n, i, j + 1)
Expected(M, G, cfg, T, key) ==
  LET n == Len(cfg) z == [s \in 1..n |-> Sz4(M, cfg[s])] rp == RowPairs(G) up == rp # <<>> /\ cfg[rp[1][1]] = 0 IN
  CASE key = "energy" -> T.energy
    [] key = "spin_z" -> Diag(T.psi, z)
    [] key = "charge" -> Diag(T.psi, [s \in 1..n |-> 4 * Dens(M, cfg[s])])
    [] key = "bond_energy_h" -> Flat(T.bond["h"]) [] key = "bond_energy_v" -> Flat(T.bond["v"]) [] key = "bond_energy_dr" -> Flat(T.bond["dr"])
    [] key = "bond_energy_ur" -> Flat(T.bond[IF G.bc = 1 THEN "dl" ELSE "ur"])   \* periodic lattices: down-left, listed at the upper site
    [] key = "sigma_x" -> Flat(T.flip)
    [] key = "SzSz_row" -> Diag(T.psi, [i \in 1..Len(rp) |-> (z[rp[i][1]] * z[rp[i][2]]) \div 4])
    [] key = "SzSz_all2all" -> LET t == Tri(z, n, 1, 1) IN Diag(T.psi, [i \in 1..Len(t) |-> t[i] \div 4])
    [] key = "SpSm_row" -> Flat([i \in 1..Len(rp) |-> IF up THEN T.row[i] ELSE Z0])
    [] key = "SmSp_row" -> Flat([i \in 1..Len(rp) |-> IF up THEN Z0 ELSE T.row[i]])
=============================================================================
