------------------------------ MODULE Engine ------------------------------
(* The sampling engine on several ranks: start from the ranks' own configurations, lend a legal one to the ranks whose own is not,
   give all amplitudes a common scale (the largest becomes one), warm up the ranks that are not warm.
   A rank: [cfg, warm].  a2[cfg] = |psi(cfg)|^2 of the state that was given; the state carries the factor 1 / sqrt(m2). *)
EXTENDS Integers, Sequences, FiniteSets, TLC
Legal(a2, m2, lo, hi) == 16 * a2 > lo * lo * m2 /\ 16 * a2 < hi * hi * m2        \* lo / 4 < |psi| / sqrt(m2) < hi / 4
Edge(a2, m2, lo, hi) == 16 * a2 = lo * lo * m2 \/ 16 * a2 = hi * hi * m2         \* decided by rounding
SetMax(S) == CHOOSE x \in S : \A y \in S : y <= x
Ceil(a, b) == (a + b - 1) \div b
Good(c0, A2(_), lo, hi) == {r \in 1..Len(c0) : Legal(A2(c0[r]), 1, lo, hi)}
First(S) == CHOOSE r \in S : \A q \in S : r <= q
Starts(c0, on, G) == G = 1..Len(c0) \/ (on /\ G # {})
Chosen(c0, G) == TLCEval([r \in 1..Len(c0) |-> IF r \in G THEN c0[r] ELSE c0[First(G)]])
WarmAfter(warm, G) == [r \in 1..Len(warm) |-> warm[r] /\ r \in G]
Top(cfg, A2(_)) == SetMax({A2(cfg[r]) : r \in 1..Len(cfg)})
(* one warm-up: the sweeps of each rank, from the k-th of its script on *)
Sweeps(todo, at, warm, wu) == IF warm THEN <<>> ELSE [i \in 1..wu |-> todo[((at + i - 1) % Len(todo)) + 1]]
EndOf(q, cfg) == IF q = <<>> THEN cfg ELSE q[Len(q)]
(* ---- which lattices and parameters a contractor accepts:  con = 1 coarse graining (periodic), 0 boundary MPS (open) *)
RECURSIVE Odd(_)
Odd(k) == IF k = 0 THEN 0 ELSE IF k % 2 = 0 THEN Odd(k \div 2) ELSE k
Accepts(con, bc, trg, r, c) == IF con = 1 THEN bc = 1 /\ trg = 1 /\ r = c /\ Odd(r) \in {1, 3} ELSE bc = 0 /\ trg = 0
=============================================================================
