---------------------------- MODULE EstimateMC ----------------------------
(* Laws of the estimators on enumerated states of a small lattice: the exact gradient is the derivative of the energy, does not point along any
   tensor, and the sampled estimator agrees with the weighted one when every configuration is drawn in proportion to its weight. *)
EXTENDS Estimate
CONSTANTS R, C, Dim, Name, Par, Vals
n == R * C
ParX == <<1, 2, 3, -1, 2>>
ParT == <<3>>
V0 == {<<-1>>, <<0>>}
V1 == {<<1>>, <<-1>>, <<0>>}
V2 == {<<1, 0>>, <<2, -1>>}
V3 == {<<1, 0>>, <<2, -1>>, <<0, 3>>}
Dd(s) == LET i == (s - 1) \div C j == (s - 1) % C IN <<IF j = 0 THEN 1 ELSE Dim, IF i = R - 1 THEN 1 ELSE Dim, IF j = C - 1 THEN 1 ELSE Dim, IF i = 0 THEN 1 ELSE Dim>>
net == [r |-> R, c |-> C, bc |-> 0, p |-> 2, d |-> [s \in 1..n |-> Dd(s)]]
Mod == [name |-> Name, par |-> Par]
Len1(s) == 2 * Dd(s)[1] * Dd(s)[2] * Dd(s)[3] * Dd(s)[4]
Cfgs == [1..n -> {0, 1}]
RECURSIVE Order(_)
Order(S) == IF S = {} THEN <<>> ELSE LET c == CHOOSE x \in S : TRUE IN <<c>> \o Order(S \ {c})
All == Order(Cfgs)
DataOf(X) == TLCEval([k \in 1..Len(All) |-> Data(net, X, Mod, All[k])])
(* states: built up one tensor at a time from a palette, so that every combination is reached *)
Pal(m) == {[i \in 1..m |-> IF i % 2 = 1 THEN v[1 + ((i \div 2) % Len(v))] ELSE w[1 + ((i \div 2) % Len(w))]] : v \in Vals, w \in (IF Dim = 1 THEN {<<1>>} ELSE Vals)}
VARIABLE X
Init == X = <<>>
Next == Len(X) < 2 * n /\ \E t \in Pal(Len1((Len(X) \div 2) + 1)) : X' = Append(X, t)
Spec == Init /\ [][Next]_X
Full == Len(X) = 2 * n
Bump(x, k, i, v) == [x EXCEPT ![k] = [@ EXCEPT ![i] = @ + v]]
Den(x) == Weight(DataOf(x))
Num(x) == ExactEnergy(DataOf(x))[1]
Hermitian == Full => ExactEnergy(DataOf(X))[2] = 0
RECURSIVE Dot(_, _, _)
Dot(x, y, i) == IF i = 0 THEN <<0, 0>> ELSE Plus(Dot(x, y, i - 2), CMul(<<x[i - 1], 0 - x[i]>>, <<y[i - 1], y[i]>>))
Grad(D, k) == ExactGradient(D, X, 2, ((k - 1) \div 2) + 1, (k - 1) % 2)
Derivative == Full => LET D == DataOf(X) w == Weight(D) e == ExactEnergy(D)[1] k == 1 + (Abs2(<<X[1][1], X[2][1]>>) % (2 * n)) IN
  \A i \in 1..Len(X[k]) : LET dn == (Num(Bump(X, k, i, 1)) - Num(Bump(X, k, i, -1))) dw == (Den(Bump(X, k, i, 1)) - Den(Bump(X, k, i, -1))) IN dn * w - e * dw = 4 * Grad(D, k)[i]
Scaling == Full => LET D == DataOf(X) IN \A s \in 1..n : Plus(Dot(X[2 * s - 1], Grad(D, 2 * s - 1), Len(X[2 * s])), Dot(X[2 * s], Grad(D, 2 * s), Len(X[2 * s]))) = <<0, 0>>
RECURSIVE Rep(_, _)
Rep(d, k) == IF k = 0 THEN <<>> ELSE <<d>> \o Rep(d, k - 1)
RECURSIVE Drawn(_, _)
Drawn(D, k) == IF k = 0 THEN <<>> ELSE Drawn(D, k - 1) \o Rep(D[k], Abs2(D[k].psi))
RECURSIVE Lcm(_, _)
Divides(a, b) == b % a = 0
Lcm(D, k) == IF k = 0 THEN 1 ELSE LET m == Lcm(D, k - 1) a == Abs2(D[k].psi) IN IF a = 0 THEN m ELSE CHOOSE x \in m..(m * a) : Divides(m, x) /\ Divides(a, x)
Sampled == Full => LET D == DataOf(X) S == Drawn(D, Len(D)) q == Lcm(D, Len(D)) w == Weight(D) IN (w > 0 /\ w < 60 /\ \A d \in {D[k] : k \in 1..Len(D)} : Abs2(d.psi) > 0) =>
  /\ MeanEnergy(S, q) = Scale(q, ExactEnergy(D))
  /\ \A s \in 1..n : \A b \in 0..1 : MeanGradient(S, S, q, X, 2, s, b) = Times(<<q * q, 0>>, ExactGradient(D, X, 2, s, b))
=============================================================================
