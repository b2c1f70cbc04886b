----------------------------- MODULE NatGradMC -----------------------------
(* Laws on every list of up to NS samples of NP parameters over a palette. *)
EXTENDS NatGrad
CONSTANTS NS, NP, Vals
V1 == {<<0, 0>>, <<1, 0>>, <<-1, 1>>, <<2, -1>>}
V2 == {<<0, 0>>, <<1, 0>>, <<-2, 0>>}
VARIABLE S
Vecs == {TLCEval([i \in 1..(2 * NP) |-> f[(i + 1) \div 2][2 - (i % 2)]]) : f \in [1..NP -> Vals]}
Init == S = <<>>
Next == Len(S) < NS /\ \E v \in Vecs : S' = Append(S, v)
Spec == Init /\ [][Next]_S
n == Len(S)
Some == n > 0
(* a few coefficient vectors *)
Y(a) == [i \in 1..n |-> <<((i * a) % 3) - 1, (i + a) % 2>>]
CenteringWorks == Some => LET B == Centered(S) G == Gram(B) IN \A i, j \in 1..n : G[i][j] = FourTerm(S, i, j) /\ G[i][j] = Conj(G[j][i]) /\ G[i][i][1] >= 0
RowsVanish == Some => LET G == Gram(Centered(S)) IN \A i \in 1..n : SumC(G[i], n) = <<0, 0>>
PushThrough == Some => LET B == Centered(S) G == Gram(B) IN \A a \in 1..3 : Apply(B, Combine(Y(a), B)) = Combine([i \in 1..n |-> SumC([j \in 1..n |-> CMul(G[i][j], Y(a)[j])], n)], B)
Positive == Some => LET B == Centered(S) IN \A a \in 1..3 : LET v == Combine(Y(a), S) q == Inner(v, Apply(B, v)) IN q[1] >= 0 /\ q[2] = 0
ShiftFree == Some => LET B == Centered(S) IN \A a \in 1..3 : Gradient(B, Y(a)) = Gradient(B, [i \in 1..n |-> Plus(Y(a)[i], <<2, -3>>)])
Filter == \A lam \in -4..5 : \A h \in 0..12 :
  /\ Abs(Inv(lam, h, TRUE)) <= Abs(Millionths(1, Abs(lam))) /\ Abs(Inv(lam, h, FALSE)) <= Abs(Millionths(1, Abs(lam)))
  /\ Inv(0 - lam, h, TRUE) = 0 - Inv(lam, h, TRUE) /\ Inv(0 - lam, h, FALSE) = 0 - Inv(lam, h, FALSE)
  /\ Inv(lam, 0, TRUE) = Inv(lam, 0, FALSE) /\ Abs(Inv(lam, h + 1, TRUE)) <= Abs(Inv(lam, h, TRUE))
  /\ (4 * Abs(lam) >= 4 * h => Abs(Inv(lam, h, TRUE) - Inv(lam, h, FALSE)) <= 1000)
Orthogonal == \A m \in {1, 2, 4, 8} : \A j, k \in 0..(m - 1) : LET F(i) == H(i, j) * H(i, k) s == SumC([i \in 1..m |-> <<F(i - 1), 0>>], m)[1] IN s = (IF j = k THEN m ELSE 0)
=============================================================================
