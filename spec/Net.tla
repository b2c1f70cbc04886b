-------------------------------- MODULE Net --------------------------------
(* Exact contraction of a two-dimensional tensor network with Gaussian-integer entries.
   Site numbers are row-major from 1. A tensor is its flat entry list <<re, im, re, im, ...>>, legs west, south, east, north
   in that order, the last running fastest; d[s] = <<W, S, E, N>>.  N = [r, c, bc, d]; bc = 1: periodic. *)
EXTENDS Integers, Sequences, FiniteSets, TLC
LOCAL Cell(x) == x
RECURSIVE SumRe(_, _, _, _, _, _, _, _, _, _, _)
SumRe(V, T, W, NN, a, b, B, sS, EE, e, k) == \* pair <<re, im>> of  sum over w, n of V[a,n,b,w] T[w,s,e,n], first k terms
  IF k = 0 THEN <<0, 0>>
  ELSE LET w == (k - 1) \div NN  n == (k - 1) % NN
           i == 2 * (((a * NN + n) * B + b) * W + w)  j == 2 * (((w * sS[2] + sS[1]) * EE + e) * NN + n)
           p == SumRe(V, T, W, NN, a, b, B, sS, EE, e, k - 1)
       IN <<p[1] + V[i + 1] * T[j + 1] - V[i + 2] * T[j + 2], p[2] + V[i + 1] * T[j + 2] + V[i + 2] * T[j + 1]>>
Step(V, T, d, A, B) == \* absorb one site into the frontier vector V[a, north, b, west] -> [a, south, b, east]
  LET S == d[2]  E == d[3]  m == A * S * B * E
      P == TLCEval([i \in 1..m |-> LET q == i - 1 IN TLCEval(SumRe(V, T, d[1], d[4], q \div (S * B * E), (q \div E) % B, B, <<(q \div (B * E)) % S, S>>, E, q % E, d[1] * d[4]))])
  IN TLCEval([i \in 1..(2 * m) |-> P[(i + 1) \div 2][2 - (i % 2)]])
RECURSIVE Prod(_, _, _)
Prod(F(_), i, j) == IF i > j THEN 1 ELSE F(i) * Prod(F, i + 1, j)
SliceT(T, d, f) ==
  LET q == [k \in 1..4 |-> IF f[k] < 0 THEN d[k] ELSE 1]
      Co(k, x) == IF f[k] < 0 THEN x ELSE f[k]
      Src(i) == LET n == Co(4, i % q[4]) e == Co(3, (i \div q[4]) % q[3]) s == Co(2, (i \div (q[4] * q[3])) % q[2]) w == Co(1, i \div (q[4] * q[3] * q[2])) IN ((w * d[2] + s) * d[3] + e) * d[4] + n
      m == q[1] * q[2] * q[3] * q[4]
  IN TLCEval([i \in 1..(2 * m) |-> T[2 * Src((i - 1) \div 2) + 2 - (i % 2)]])
(* One row: the bond closing the row is fixed to h, summed over; V carries the row's north legs. *)
RECURSIVE AlongRow(_, _, _, _, _)
AlongRow(N, T, V, s, h) == \* absorb sites of the row up to site s (V: frontier at the start of the row)
  LET row == (s - 1) \div N.c  col == (s - 1) % N.c
      South(k) == N.d[row * N.c + k][2]  North(k) == N.d[row * N.c + k][4]
      before == IF col = 0 THEN V ELSE AlongRow(N, T, V, s - 1, h)
      f == <<IF col = 0 THEN h ELSE -1, -1, IF col = N.c - 1 THEN h ELSE -1, -1>>
      dd == <<IF col = 0 THEN 1 ELSE N.d[s][1], N.d[s][2], IF col = N.c - 1 THEN 1 ELSE N.d[s][3], N.d[s][4]>>
  IN Step(before, IF f[1] < 0 /\ f[3] < 0 THEN T[s] ELSE SliceT(T[s], N.d[s], f), dd, Prod(South, 1, col), Prod(North, col + 2, N.c))
RECURSIVE RowSum(_, _, _, _, _)
RowSum(N, T, V, last, h) == LET x == AlongRow(N, T, V, last, h) IN
  IF h = 0 THEN x ELSE LET y == RowSum(N, T, V, last, h - 1) IN TLCEval([i \in 1..Len(x) |-> x[i] + y[i]])
RECURSIVE Down(_, _, _)
Down(N, T, row) == IF row = 0 THEN <<1, 0>> ELSE RowSum(N, T, Down(N, T, row - 1), row * N.c, N.d[(row - 1) * N.c + 1][1] - 1)
(* ---- bonds closing the columns: fix them all, contract, add up *)
RECURSIVE Digit(_, _, _)
Digit(D, x, k) == IF k = 1 THEN x % D[1] ELSE Digit(Tail(D), x \div D[1], k - 1)
TopDims(N) == [k \in 1..N.c |-> N.d[k][4]]
Fix(N, x, s) == LET row == (s - 1) \div N.c  col == (s - 1) % N.c  v == Digit(TopDims(N), x, col + 1)
  IN <<-1, IF row = N.r - 1 THEN v ELSE -1, -1, IF row = 0 THEN v ELSE -1>>
Opened(N, x) == [N EXCEPT !.d = TLCEval([s \in 1..Len(N.d) |-> TLCEval([k \in 1..4 |-> IF Fix(N, x, s)[k] < 0 THEN N.d[s][k] ELSE 1])])]
Cut(N, T, x) == TLCEval([s \in 1..Len(T) |-> IF s > N.c /\ s <= (N.r - 1) * N.c THEN T[s] ELSE SliceT(T[s], N.d[s], Fix(N, x, s))])
RECURSIVE AddCuts(_, _, _)
AddCuts(N, T, x) == IF x < 0 THEN <<0, 0>> ELSE
  LET p == AddCuts(N, T, x - 1)  o == Down(Opened(N, x), Cut(N, T, x), N.r) IN <<p[1] + o[1], p[2] + o[2]>>
Amp(N, T) == IF N.bc = 0 THEN Down(N, T, N.r) ELSE LET D == TopDims(N) F(k) == D[k] IN AddCuts(N, T, Prod(F, 1, N.c) - 1)
(* ---- the environment of a site: everything but that tensor, as the coefficient of each of its entries *)
Unit(n, i) == [k \in 1..n |-> IF k = 2 * i - 1 THEN 1 ELSE 0]
Hole(N, T, s) == LET n == Len(T[s]) h == TLCEval([i \in 1..(n \div 2) |-> Amp(N, [T EXCEPT ![s] = Unit(n, i)])]) IN TLCEval([k \in 1..n |-> h[(k + 1) \div 2][2 - (k % 2)]])
(* ---- a state: P components per site; a configuration picks one *)
Pick(X, P, cfg) == [s \in 1..Len(cfg) |-> X[(s - 1) * P + cfg[s] + 1]]
Psi(N, X, P, cfg) == Amp(N, Pick(X, P, cfg))
(* transpose of the network: rows become columns (used to check the contraction against itself) *)
TransD(d) == <<d[4], d[3], d[2], d[1]>>
SiteT(N, s) == LET row == (s - 1) \div N.r col == (s - 1) % N.r IN col * N.c + row + 1   \* site of N shown at place s of its transpose
TransT(T, d) == LET dd == TransD(d) m == d[1] * d[2] * d[3] * d[4]
     Src(i) == LET n == i % dd[4] e == (i \div dd[4]) % dd[3] s == (i \div (dd[4] * dd[3])) % dd[2] w == i \div (dd[4] * dd[3] * dd[2]) IN ((n * d[2] + e) * d[3] + s) * d[4] + w
  IN TLCEval([i \in 1..(2 * m) |-> T[2 * Src((i - 1) \div 2) + 2 - (i % 2)]])
TransN(N) == [r |-> N.c, c |-> N.r, bc |-> N.bc, d |-> TLCEval([s \in 1..Len(N.d) |-> TransD(N.d[SiteT(N, s)])])]
TransNet(N, T) == TLCEval([s \in 1..Len(T) |-> TransT(T[SiteT(N, s)], N.d[SiteT(N, s)])])
=============================================================================
