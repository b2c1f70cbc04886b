------------------------------ MODULE SuwaTodo ------------------------------
(* Rejection-free multi-state update. A flow v[i][j] is weight(i) * P(i -> j), in integer weight units.
   GoodFlow is the property; RingFlow is the construction used by the code (source intervals
   shifted by the largest weight on a ring of length S); the model shows RingFlow is a GoodFlow for every weight vector. *)
EXTENDS Integers, Sequences, FiniteSets, TLC
Max2(a, b) == IF a > b THEN a ELSE b
Min2(a, b) == IF a < b THEN a ELSE b
RECURSIVE SumTo(_, _)
SumTo(f, n) == IF n = 0 THEN 0 ELSE f[n] + SumTo(f, n - 1)
Sum(f) == SumTo(f, Len(f))
N(w) == Len(w)
RowSums(w, v) == \A i \in 1..N(w) : w[i] > 0 => Sum(v[i]) = w[i]
GlobalBalance(w, v) == \A j \in 1..N(w) : Sum([i \in 1..N(w) |-> v[i][j]]) = w[j]
NoZeroTarget(w, v) == \A i, j \in 1..N(w) : w[j] = 0 => v[i][j] = 0
MinimalRejection(w, v) == \A i \in 1..N(w) : v[i][i] = Max2(0, 2 * w[i] - Sum(w))
GoodFlow(w, v) == RowSums(w, v) /\ GlobalBalance(w, v) /\ NoZeroTarget(w, v) /\ MinimalRejection(w, v)

(* ---- the ring construction ---- *)
MaxOf(w) == CHOOSE x \in {w[k] : k \in 1..N(w)} : \A k \in 1..N(w) : w[k] <= x
Overlap(a, b, c, d) == Max2(0, Min2(b, d) - Max2(a, c))
RingFlow(w) ==
  LET S == Sum(w)
      lo(i) == SumTo(w, i - 1)
      start(i) == (lo(i) + MaxOf(w)) % S
      f(i, j) == Overlap(start(i), start(i) + w[i], lo(j), lo(j) + w[j])
               + Overlap(start(i), start(i) + w[i], S + lo(j), S + lo(j) + w[j])
  IN [i \in 1..N(w) |-> [j \in 1..N(w) |-> f(i, j)]]
(* The construction the code had before: the largest weight moved to the front.  With equal largest weights the flow depends on
   which of them counts as the largest; if rounding decides that differently for each starting state, balance is lost. *)
SwapIx(m, i) == IF i = 1 THEN m ELSE IF i = m THEN 1 ELSE i
SwapFlow(w, m, i) ==
  LET p == [k \in 1..N(w) |-> w[SwapIx(m, k)]]  S == Sum(w)
      lo(k) == SumTo(p, k - 1)
      st == (lo(SwapIx(m, i)) + p[1]) % S
      f(j) == Overlap(st, st + w[i], lo(j), lo(j) + p[j]) + Overlap(st, st + w[i], S + lo(j), S + lo(j) + p[j])
  IN [j \in 1..N(w) |-> f(SwapIx(m, j))]
ArgMaxes(w) == {m \in 1..N(w) : w[m] = MaxOf(w)}

CONSTANTS MaxN, B
VARIABLES w
Init == \E n \in 1..MaxN : w \in [1..n -> 0..B] /\ \E i \in 1..n : w[i] > 0
Next == UNCHANGED w
Spec == Init /\ [][Next]_w
RingIsGood == GoodFlow(w, RingFlow(w))
(* a stochastic chain with this flow keeps the distribution: one step of the population w is again w *)
Stationary == [j \in 1..N(w) |-> Sum([i \in 1..N(w) |-> RingFlow(w)[i][j]])] = w
(* for each choice of one largest weight the old construction was good; for choices that differ between starting states it is not *)
SwapGood == \A m \in ArgMaxes(w) : GoodFlow(w, [i \in 1..N(w) |-> SwapFlow(w, m, i)])
SwapRobust == \A t \in [1..N(w) -> ArgMaxes(w)] : GoodFlow(w, [i \in 1..N(w) |-> SwapFlow(w, t[i], i)])
=============================================================================
