------------------------------- MODULE Stats -------------------------------
(* Sample statistics over ranks, in exact integer arithmetic.  A datum is a pair <<re, im>> of integers.
   Mean = Sum/n;  SE^2 = Sum |x - mean|^2 / (n (n-1)) = Dev / (n^3 (n-1)) with Dev = Sum |n x - Sum|^2. *)
EXTENDS Integers, Sequences, FiniteSets
RECURSIVE SumC(_, _, _)
SumC(q, c, k) == IF k = 0 THEN 0 ELSE q[k][c] + SumC(q, c, k - 1)
Tot(q) == <<SumC(q, 1, Len(q)), SumC(q, 2, Len(q))>>
RECURSIVE DevTo(_, _, _, _)
DevTo(q, n, s, k) == IF k = 0 THEN 0 ELSE (n * q[k][1] - s[1]) * (n * q[k][1] - s[1]) + (n * q[k][2] - s[2]) * (n * q[k][2] - s[2]) + DevTo(q, n, s, k - 1)
Dev(q) == DevTo(q, Len(q), Tot(q), Len(q))
(* ---- binning: block length floor(sqrt N), incomplete last block dropped, blocks of all ranks pooled in rank order *)
Root(n) == CHOOSE r \in 0..n : r * r <= n /\ (r + 1) * (r + 1) > n
BinLen(n) == IF n = 0 THEN 1 ELSE Root(n)
BinsOf(x) == LET b == BinLen(Len(x)) IN [i \in 1..(Len(x) \div b) |-> Tot(SubSeq(x, (i - 1) * b + 1, i * b))]
RECURSIVE Cat(_, _)
Cat(xs, k) == IF k = 0 THEN <<>> ELSE Cat(xs, k - 1) \o BinsOf(xs[k])
Pool(xs) == Cat(xs, Len(xs))
(* results as [num, den] of the mean and [dev, den] of the squared error; n = 0: 0 +- 0, n = 1: error infinite *)
Res(q, b) == [n |-> Len(q), sum |-> Tot(q), den |-> b * Len(q), dev |-> Dev(q), dden |-> b * b * Len(q) * Len(q) * Len(q) * (Len(q) - 1)]
Binned(xs) == Res(Pool(xs), BinLen(Len(xs[1])))
(* ---- initial positive sequence inflation factor: 1 + 2 sum rho_k while Gamma_k + Gamma_{k+1} > 0, lags at most 20 *)
RECURSIVE AutoTo(_, _, _)
AutoTo(d, lag, t) == IF t = 0 THEN 0 ELSE d[t] * d[t + lag] + AutoTo(d, lag, t - 1)
Auto(d, lag) == AutoTo(d, lag, Len(d) - lag)
Dv(x) == LET s == SumC(x, 1, Len(x)) IN [i \in 1..Len(x) |-> Len(x) * x[i][1] - s]
RECURSIVE IpsFrom(_, _)
IpsFrom(d, lag) == IF lag > 20 \/ lag > Len(d) - 2 \/ Auto(d, lag) + Auto(d, lag + 1) <= 0 THEN 0 ELSE Auto(d, lag) + IpsFrom(d, lag + 1)
Ips(x) == \* <<numerator, denominator>>
  IF Len(x) < 3 \/ Auto(Dv(x), 0) = 0 THEN <<1, 1>> ELSE LET s == IpsFrom(Dv(x), 1) g0 == Auto(Dv(x), 0) IN IF s < 0 THEN <<1, 1>> ELSE <<g0 + 2 * s, g0>>
=============================================================================
