------------------------------- MODULE NetMC -------------------------------
(* The contraction specification against its defining sum, and the laws every contractor inherits from it:
   the amplitude is linear in each tensor, a site's environment closed with the site's tensor is the amplitude,
   and reading the lattice by columns instead of rows changes nothing. *)
EXTENDS Net
CONSTANTS R, C, BC, D, Pal

NS == R * C
Dim(s) == LET row == (s - 1) \div C col == (s - 1) % C IN
  <<IF BC = 1 \/ col > 0 THEN D ELSE 1, IF BC = 1 \/ row < R - 1 THEN D ELSE 1, IF BC = 1 \/ col < C - 1 THEN D ELSE 1, IF BC = 1 \/ row > 0 THEN D ELSE 1>>
NN == [r |-> R, c |-> C, bc |-> BC, d |-> [s \in 1..NS |-> Dim(s)]]
Size(s) == LET d == Dim(s) IN d[1] * d[2] * d[3] * d[4]
(* a palette of generic, sparse, symmetric-looking and zero tensors *)
Entry(p, s, k) == CASE p = 1 -> ((7 * k + 3 * s) % 5) - 2 [] p = 2 -> IF (k + s) % 3 = 0 THEN 1 ELSE 0 [] p = 3 -> IF k % 4 = 1 THEN 2 ELSE -1
Imag(p, s, k) == IF p = 1 THEN ((k + s) % 3) - 1 ELSE 0
Ten(p, s) == [i \in 1..(2 * Size(s)) |-> IF i % 2 = 1 THEN Entry(p, s, (i + 1) \div 2) ELSE Imag(p, s, i \div 2)]
VARIABLES pick
Init == pick \in [1..NS -> 1..Pal]
Spec == Init /\ [][UNCHANGED pick]_pick
T == TLCEval([s \in 1..NS |-> Ten(pick[s], s)])
A == Amp(NN, T)
(* the defining sum: over all assignments to the bonds.  east[s], south[s]: value of the bond leaving s that way *)
East(s) == LET row == (s - 1) \div C col == (s - 1) % C IN row * C + ((col + 1) % C) + 1
South(s) == LET row == (s - 1) \div C col == (s - 1) % C IN ((row + 1) % R) * C + col + 1
West(s) == CHOOSE t \in 1..NS : East(t) = s
North(s) == CHOOSE t \in 1..NS : South(t) = s
EB == {s \in 1..NS : Dim(s)[3] > 1}
SB == {s \in 1..NS : Dim(s)[2] > 1}
Val(f, s) == IF s \in DOMAIN f THEN f[s] ELSE 0
At(es, ss, s) == LET d == Dim(s) i == ((Val(es, West(s)) * d[2] + Val(ss, s)) * d[3] + Val(es, s)) * d[4] + Val(ss, North(s)) IN <<T[s][2 * i + 1], T[s][2 * i + 2]>>
Mul(a, b) == <<a[1] * b[1] - a[2] * b[2], a[1] * b[2] + a[2] * b[1]>>
RECURSIVE Times(_, _, _)
Times(es, ss, s) == IF s = 0 THEN <<1, 0>> ELSE Mul(Times(es, ss, s - 1), At(es, ss, s))
RECURSIVE AddAll(_)
AddAll(S) == IF S = {} THEN <<0, 0>> ELSE LET x == CHOOSE y \in S : TRUE p == AddAll(S \ {x}) v == Times(x[1], x[2], NS) IN <<p[1] + v[1], p[2] + v[2]>>
Sum == AddAll([EB -> 0..(D - 1)] \X [SB -> 0..(D - 1)])
Definition == A = Sum
Transposes == A = Amp(TransN(NN), TransNet(NN, T))
HoleCloses == \A s \in 1..NS : LET h == Hole(NN, T, s) IN
  LET RECURSIVE Dot(_) Dot(k) == IF k = 0 THEN <<0, 0>> ELSE LET p == Dot(k - 1) v == Mul(<<h[2 * k - 1], h[2 * k]>>, <<T[s][2 * k - 1], T[s][2 * k]>>) IN <<p[1] + v[1], p[2] + v[2]>> IN Dot(Len(h) \div 2) = A
Linear == \A s \in 1..NS : LET u == Ten(1, s) IN LET b == Amp(NN, [T EXCEPT ![s] = u]) m == Amp(NN, [T EXCEPT ![s] = [k \in 1..Len(u) |-> u[k] + T[s][k]]]) IN m = <<A[1] + b[1], A[2] + b[2]>>
=============================================================================
