------------------------------ MODULE NatGrad ------------------------------
(* Natural-gradient steps from samples O_i of the logarithmic derivative (flat Gaussian integers) and local energies E_i.
   N samples of all ranks together; Obar'_i = N O_i - sum O; S' = sum_i Obar'_i Obar'_i^+ = N^3 S; G'_ij = <Obar'_i, Obar'_j> = N^3 T_ij;
   the sampled gradient is N^2 g = sum_i conj(E_i) Obar'_i (whatever constant is subtracted from the energies). *)
EXTENDS Integers, Sequences, TLC
CMul(a, b) == <<a[1] * b[1] - a[2] * b[2], a[1] * b[2] + a[2] * b[1]>>
Conj(z) == <<z[1], 0 - z[2]>>
Plus(a, b) == <<a[1] + b[1], a[2] + b[2]>>
Abs(x) == IF x < 0 THEN 0 - x ELSE x
Dim(v) == Len(v) \div 2
At(v, k) == <<v[2 * k - 1], v[2 * k]>>
RECURSIVE Dot(_, _, _)
Dot(x, y, k) == IF k = 0 THEN <<0, 0>> ELSE Plus(Dot(x, y, k - 1), CMul(Conj(At(x, k)), At(y, k)))
Inner(x, y) == Dot(x, y, Dim(x))
Times(z, v) == TLCEval([i \in 1..Len(v) |-> LET k == (i + 1) \div 2 w == CMul(z, At(v, k)) IN w[2 - (i % 2)]])
AddV(x, y) == TLCEval([i \in 1..Len(x) |-> x[i] + y[i]])
SubV(x, y) == TLCEval([i \in 1..Len(x) |-> x[i] - y[i]])
ScaleV(s, v) == TLCEval([i \in 1..Len(v) |-> s * v[i]])
ZeroV(m) == TLCEval([i \in 1..m |-> 0])
RECURSIVE SumV(_, _, _)
SumV(S, k, m) == IF k = 0 THEN ZeroV(m) ELSE AddV(SumV(S, k - 1, m), S[k])
Total(S) == SumV(S, Len(S), Len(S[1]))
Centered(S) == LET t == TLCEval(Total(S)) n == Len(S) IN TLCEval([i \in 1..n |-> SubV(ScaleV(n, S[i]), t)])
(* sum_i z_i v_i *)
Combine(z, B) == Total([i \in 1..Len(B) |-> Times(z[i], B[i])])
Apply(B, v) == Combine([i \in 1..Len(B) |-> Inner(B[i], v)], B)
Gram(B) == TLCEval([i \in 1..Len(B) |-> TLCEval([j \in 1..Len(B) |-> Inner(B[i], B[j])])])
Gradient(B, E) == Combine([i \in 1..Len(B) |-> Conj(E[i])], B)
(* the four-term formula on the raw products: N^3 T_ij = N^2 r_ij - N row_i - N conj(row_j) + all *)
RECURSIVE SumC(_, _)
SumC(z, k) == IF k = 0 THEN <<0, 0>> ELSE Plus(SumC(z, k - 1), z[k])
Row(S, i) == SumC([j \in 1..Len(S) |-> Inner(S[i], S[j])], Len(S))
All(S) == SumC([i \in 1..Len(S) |-> Row(S, i)], Len(S))
Sc(s, z) == <<s * z[1], s * z[2]>>
FourTerm(S, i, j) == LET n == Len(S) IN Plus(Plus(Sc(n * n, Inner(S[i], S[j])), Sc(0 - n, Row(S, i))), Plus(Sc(0 - n, Conj(Row(S, j))), All(S)))
(* the filtered inverse of an eigenvalue, cutoff h / 4, in millionths (rounded towards zero) *)
RECURSIVE Digits(_, _, _)
Digits(r, d, k) == IF k = 0 THEN 0 ELSE ((r * 10) \div d) * (10 ^ (k - 1)) + Digits((r * 10) % d, d, k - 1)
Millionths(a, d) == IF d = 0 THEN 0 ELSE LET v == (Abs(a) \div d) * 1000000 + Digits(Abs(a) % d, d, 6) IN IF a < 0 THEN 0 - v ELSE v
Inv(lam, h, soft) == IF soft THEN Millionths(4096 * (lam ^ 5), 4096 * (lam ^ 6) + (h ^ 6)) ELSE IF 4 * Abs(lam) > h THEN Millionths(1, Abs(lam)) * (IF lam < 0 THEN -1 ELSE 1) ELSE 0
MaxAbs(l) == LET S == {Abs(l[i]) : i \in 1..Len(l)} IN CHOOSE x \in S : \A y \in S : y <= x
(* sum of two bits' conjunctions: the entries of the Hadamard matrix of size 1, 2, 4, 8 (indices from 0) *)
Bit(x, k) == (x \div (2 ^ k)) % 2
H(i, k) == IF (Bit(i, 0) * Bit(k, 0) + Bit(i, 1) * Bit(k, 1) + Bit(i, 2) * Bit(k, 2)) % 2 = 0 THEN 1 ELSE -1
=============================================================================
