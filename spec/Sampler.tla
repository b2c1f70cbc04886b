------------------------------ MODULE Sampler ------------------------------
(* Markov-chain sweeps over lattice configurations.  A sweep tries every bond (or line of three sites) and may change the
   states on it.  w: configuration -> integer weight |psi|^2.  Distributions are in units of 1/U. *)
EXTENDS Integers, Sequences, FiniteSets, TLC
U == 100000
(* ---- geometry: site numbers row-major from 1 *)
HBonds(r, c) == [k \in 1..(r * (c - 1)) |-> LET s == ((k - 1) \div (c - 1)) * c + ((k - 1) % (c - 1)) + 1 IN <<s, s + 1>>]
VBonds(r, c) == [k \in 1..((r - 1) * c) |-> LET col == (k - 1) \div (r - 1) row == (k - 1) % (r - 1) s == row * c + col + 1 IN <<s, s + c>>]
Bonds(r, c) == HBonds(r, c) \o VBonds(r, c)
HLines(r, c) == [k \in 1..(r * (c - 2)) |-> LET s == ((k - 1) \div (c - 2)) * c + ((k - 1) % (c - 2)) + 1 IN <<s, s + 1, s + 2>>]
VLines(r, c) == [k \in 1..((r - 2) * c) |-> LET col == (k - 1) \div (r - 2) row == (k - 1) % (r - 2) s == row * c + col + 1 IN <<s, s + c, s + 2 * c>>]
Tries(kind, r, c) == CASE kind \in {"ex", "full", "hub"} -> Len(Bonds(r, c)) [] kind = "tnn" -> Len(HLines(r, c)) + Len(VLines(r, c)) [] OTHER -> 2 * r * c
(* ---- what a sweep keeps *)
Count(cfg, x) == Cardinality({s \in 1..Len(cfg) : cfg[s] = x})
Up(cfg) == Count(cfg, 0) + Count(cfg, 1)
Down(cfg) == Count(cfg, 0) + Count(cfg, 2)
Kept(kind, P, a, b) == CASE kind \in {"full", "fullp"} -> TRUE
                         [] kind = "hub" -> Up(a) = Up(b) /\ Down(a) = Down(b)
                         [] OTHER -> \A x \in 0..(P - 1) : Count(a, x) = Count(b, x)
Sector(kind, P, a) == {b \in [1..Len(a) -> 0..(P - 1)] : Kept(kind, P, a, b)}
(* ---- Metropolis exchange on one bond *)
Swap(a, b) == [a EXCEPT ![b[1]] = a[b[2]], ![b[2]] = a[b[1]]]
Flow(w, p, a, b) == IF a = b THEN 0 ELSE IF w[b] >= w[a] THEN p[a] ELSE (p[a] * w[b]) \div w[a]   \* probability moving a -> b
Try(w, p, bond) == TLCEval([a \in DOMAIN w |-> LET b == Swap(a, bond) IN p[a] - Flow(w, p, a, b) + Flow(w, p, b, a)])
RECURSIVE Chain(_, _, _)
Chain(w, p, bonds) == IF bonds = <<>> THEN p ELSE Chain(w, Try(w, p, Head(bonds)), Tail(bonds))
(* periodic lattices: each try picks one of the 2 r c bonds with equal probability *)
PBonds(r, c) == TLCEval([k \in 1..(2 * r * c) |-> LET i == (k - 1) % (r * c)  row == i \div c  col == i % c IN IF k <= r * c THEN <<i + 1, row * c + ((col + 1) % c) + 1>> ELSE <<i + 1, ((row + 1) % r) * c + col + 1>>])
RECURSIVE Over(_, _)
Over(f, n) == IF n = 0 THEN 0 ELSE f[n] + Over(f, n - 1)
RTry(w, p, bs) == LET pr == TLCEval([k \in 1..Len(bs) |-> Try(w, p, bs[k])]) IN TLCEval([a \in DOMAIN w |-> Over([k \in 1..Len(bs) |-> pr[k][a]], Len(bs)) \div Len(bs)])
RECURSIVE RChain(_, _, _, _)
RChain(w, p, bs, n) == IF n = 0 THEN p ELSE RChain(w, RTry(w, p, bs), bs, n - 1)
Perms(n) == {f \in [1..n -> 1..n] : \A i, j \in 1..n : i # j => f[i] # f[j]}
At(w, a) == TLCEval([b \in DOMAIN w |-> IF b = a THEN U ELSE 0])
RECURSIVE Total(_, _)
Total(f, S) == IF S = {} THEN 0 ELSE LET x == CHOOSE y \in S : TRUE IN f[x] + Total(f, S \ {x})
Flat(w) == \A a, b \in DOMAIN w : w[a] = w[b]
(* ---- counts of n independent trials with probability q / 10000: within six standard deviations (plus rounding of q) *)
Likely(cnt, n, q) == LET d == cnt - (n * q) \div 10000 v == (n * ((q * (10000 - q)) \div 10000)) \div 10000 IN d * d <= 36 * v + 80
=============================================================================
