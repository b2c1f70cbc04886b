------------------------------ MODULE Measure ------------------------------
(* The Monte-Carlo measurement program.  Every rank runs its own chain: after the warm-up it takes one sample (every
   observable of the model on the present configuration) after each `sweeps` sweeps, until it has its share of the samples or a
   stop signal seen by any rank is agreed on before a sweep.  Then the observables are gathered, one collective step per
   observable, and written.  What is written: the averages over the samples of all ranks and the errors of the rank averages. *)
EXTENDS Stats
Share(total, ranks) == (total + ranks - 1) \div ranks
Min2(a, b) == IF a < b THEN a ELSE b
(* samples taken by every rank when a signal arrives during sweep `at` of a rank (0: before the first; -1: never) *)
Taken(share, warm, sweeps, at) == IF at < 0 THEN share ELSE IF at <= warm THEN 0 ELSE Min2(share, ((at - warm) + sweeps - 1) \div sweeps)
(* sum over the samples of one rank of component i of an observable, v[s] = <<re, im, re, im, ...>> *)
RECURSIVE SumOver(_, _, _)
SumOver(v, i, s) == IF s = 0 THEN <<0, 0>> ELSE LET p == SumOver(v, i, s - 1) IN <<p[1] + v[s][2 * i - 1], p[2] + v[s][2 * i]>>
(* statistics of component i: x[r] = the samples of rank r *)
StatOf(x, i) == Res([r \in 1..Len(x) |-> SumOver(x[r], i, Len(x[r]))], Len(x[1]))
RECURSIVE Count(_, _, _)
Count(c, pps, k) == IF k = 0 THEN 0 ELSE pps[c[k] + 1] + Count(c, pps, k - 1)
MaxOf(q) == CHOOSE m \in {q[i] : i \in 1..Len(q)} : \A i \in 1..Len(q) : q[i] <= m
Bins(n, pps) == n * MaxOf(pps) + 1
OneHot(c, pps) == [i \in 1..2 * Bins(Len(c), pps) |-> IF i = 2 * Count(c, pps, Len(c)) + 1 THEN 1 ELSE 0]
(* the function compared by the replica test of the harness *)
RECURSIVE Ov(_, _, _)
Ov(a, b, k) == IF k = 0 THEN 0 ELSE k * (a[k] + 50 * b[k]) + Ov(a, b, k - 1)
=============================================================================
