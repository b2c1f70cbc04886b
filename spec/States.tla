------------------------------- MODULE States -------------------------------
(* Wave functions as a whole: a state is the vector of its amplitudes over all configurations of N sites with P levels each
   (site 1 the slowest digit), whatever tensors represent it.  Amplitudes are Gaussian integers, flat <<re, im, re, im, ...>>. *)
EXTENDS Integers, Sequences, FiniteSets, TLC
LOCAL N == INSTANCE Net
RECURSIVE Pow(_, _)
Pow(b, k) == IF k = 0 THEN 1 ELSE b * Pow(b, k - 1)
Digit(P, n, k, s) == (k \div Pow(P, n - s)) % P           \* level of site s in configuration number k (from 0)
Config(P, n, k) == TLCEval([s \in 1..n |-> Digit(P, n, k, s)])
RECURSIVE NumberOf(_, _)
NumberOf(P, c) == IF c = <<>> THEN 0 ELSE P * NumberOf(P, SubSeq(c, 1, Len(c) - 1)) + c[Len(c)]
At(v, k) == <<v[2 * k + 1], v[2 * k + 2]>>                \* entry k (from 0) of a flat vector
Flat(f, n) == TLCEval([i \in 1..(2 * n) |-> f[(i + 1) \div 2][2 - (i % 2)]])
Mul(a, b) == <<a[1] * b[1] - a[2] * b[2], a[1] * b[2] + a[2] * b[1]>>
Add(a, b) == <<a[1] + b[1], a[2] + b[2]>>
(* ---- a network of tensors *)
OfNet(net, X, P) == LET n == net.r * net.c  m == Pow(P, n)
  IN Flat(TLCEval([k \in 1..m |-> N!Psi(net, X, P, Config(P, n, k - 1))]), m)
(* ---- a PEPS in Gamma-lambda form; the weights on a bond are squares q^2, so each end of the bond takes a factor q.
   qw[s], qn[s]: the q's of the bonds west and north of site s. *)
EastOf(net, s) == LET i == (s - 1) \div net.c j == (s - 1) % net.c IN i * net.c + ((j + 1) % net.c) + 1
SouthOf(net, s) == LET i == (s - 1) \div net.c j == (s - 1) % net.c IN ((i + 1) % net.r) * net.c + j + 1
Ones(n) == [i \in 1..n |-> 1]
HasEast(net, s) == net.bc = 1 \/ s % net.c # 0
HasSouth(net, s) == net.bc = 1 \/ s <= (net.r - 1) * net.c
Absorb(net, X, P, qw, qn) == TLCEval([x \in 1..Len(X) |->
  LET s == ((x - 1) \div P) + 1  d == net.d[s]
      qe == IF HasEast(net, s) THEN qw[EastOf(net, s)] ELSE Ones(d[3])
      qs == IF HasSouth(net, s) THEN qn[SouthOf(net, s)] ELSE Ones(d[2])
      F(i) == qn[s][(i % d[4]) + 1] * qe[((i \div d[4]) % d[3]) + 1] * qs[((i \div (d[4] * d[3])) % d[2]) + 1] * qw[s][(i \div (d[4] * d[3] * d[2])) + 1]
  IN TLCEval([i \in 1..Len(X[x]) |-> X[x][i] * F((i - 1) \div 2)])])
OfPeps(net, X, P, qw, qn) == OfNet(net, Absorb(net, X, P, qw, qn), P)
(* ---- a product state *)
Product(P, c) == LET m == Pow(P, Len(c)) k == NumberOf(P, c) IN TLCEval([i \in 1..(2 * m) |-> IF i = 2 * k + 1 THEN 1 ELSE 0])
(* ---- superpositions: coef flat, <<>> for plain sums *)
RECURSIVE Combine(_, _, _)
Combine(psis, coef, j) == \* of the first j
  LET c == IF coef = <<>> THEN <<1, 0>> ELSE At(coef, j - 1)  m == Len(psis[1]) \div 2
      t == TLCEval([k \in 1..m |-> Mul(c, At(psis[j], k - 1))])
      u == Flat(t, m)
  IN IF j = 1 THEN u ELSE LET r == Combine(psis, coef, j - 1) IN TLCEval([i \in 1..(2 * m) |-> r[i] + u[i]])
(* ---- an operator on some sites: m[i][o], i the levels before, o after, both numbered with the first listed site slowest *)
SubNumber(P, c, sites) == NumberOf(P, [j \in 1..Len(sites) |-> c[sites[j]]])
Put(P, c, sites, i) == [s \in 1..Len(c) |-> IF \E j \in 1..Len(sites) : sites[j] = s THEN Digit(P, Len(sites), i, CHOOSE j \in 1..Len(sites) : sites[j] = s) ELSE c[s]]
RECURSIVE Column(_, _, _, _, _, _, _)
Column(psi, P, c, sites, m, o, i) == IF i < 0 THEN <<0, 0>> ELSE
  LET q == Pow(P, Len(sites))  a == At(m, i * q + o) p == Column(psi, P, c, sites, m, o, i - 1)
  IN IF a = <<0, 0>> THEN p ELSE Add(p, Mul(a, At(psi, NumberOf(P, Put(P, c, sites, i)))))
Apply(psi, P, n, sites, m) == LET z == Pow(P, n)
  IN Flat(TLCEval([k \in 1..z |-> LET c == Config(P, n, k - 1) IN TLCEval(Column(psi, P, c, sites, m, SubNumber(P, c, sites), Pow(P, Len(sites)) - 1))]), z)
RECURSIVE Inner(_, _, _)
Inner(a, b, k) == IF k = 0 THEN <<0, 0>> ELSE LET x == At(a, k - 1) y == At(b, k - 1) IN Add(Inner(a, b, k - 1), Mul(<<x[1], 0 - x[2]>>, y))
Norm2(a) == Inner(a, a, Len(a) \div 2)[1]
Expectation(a, P, n, sites, h) == Inner(a, Apply(a, P, n, sites, h), Len(a) \div 2)
(* ---- which sites a gate acts on, in the order of its legs, and which bonds it may rewrite (positive: west of the site, negative: north) *)
Id(G, i, j) == ((i + G.r) % G.r) * G.c + ((j + G.c) % G.c) + 1
Sites(G, kind, i, j) ==
  CASE kind = "h" -> <<Id(G, i, j), Id(G, i, j + 1)>>
    [] kind = "v" -> <<Id(G, i, j), Id(G, i + 1, j)>>
    [] kind = "A" -> <<Id(G, i, j - 1), Id(G, i, j), Id(G, i + 1, j)>>       \* upper right triangle
    [] kind = "B" -> <<Id(G, i, j + 1), Id(G, i, j), Id(G, i + 1, j)>>       \* upper left triangle
    [] kind = "C" -> <<Id(G, i, j), Id(G, i + 1, j), Id(G, i + 1, j - 1)>>   \* lower right triangle
    [] kind = "D" -> <<Id(G, i, j), Id(G, i + 1, j), Id(G, i + 1, j + 1)>>   \* lower left triangle
Bonds(G, kind, i, j) ==
  CASE kind = "h" -> {Id(G, i, j + 1)}
    [] kind = "v" -> {0 - Id(G, i + 1, j)}
    [] kind = "A" -> {Id(G, i, j), 0 - Id(G, i + 1, j)}
    [] kind = "B" -> {Id(G, i, j + 1), 0 - Id(G, i + 1, j)}
    [] kind = "C" -> {0 - Id(G, i + 1, j), Id(G, i + 1, j)}
    [] kind = "D" -> {0 - Id(G, i + 1, j), Id(G, i + 1, j + 1)}
=============================================================================
