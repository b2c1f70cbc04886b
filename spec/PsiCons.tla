------------------------------ MODULE PsiCons ------------------------------
(* Amplitude-consistency summary over lists of Gaussian integers <<re, im>> (a real list has im = 0).
   All quantities are kept rational by scaling with the list length n:
     S = n * mean,   dev2 = (n * max distance from the mean)^2,   relative error^2 = dev2 / |S|^2. *)
EXTENDS Integers, Sequences, FiniteSets, TLC
N2(z) == z[1] * z[1] + z[2] * z[2]
Neg(z) == <<-z[1], -z[2]>>
Dot(z, w) == z[1] * w[1] + z[2] * w[2]
Refs(L) == {i \in DOMAIN L : \A j \in DOMAIN L : N2(L[j]) <= N2(L[i])}
Align(L, r) == [i \in DOMAIN L |-> IF Dot(L[i], L[r]) < 0 THEN Neg(L[i]) ELSE L[i]]
RECURSIVE SumTo(_, _)
SumTo(L, k) == IF k = 0 THEN <<0, 0>> ELSE LET p == SumTo(L, k - 1) IN <<p[1] + L[k][1], p[2] + L[k][2]>>
S(L, r) == SumTo(Align(L, r), Len(L))
Max(X) == CHOOSE x \in X : \A y \in X : y <= x
Dev2(L, r) == LET A == Align(L, r)  s == S(L, r)  n == Len(L)
              IN Max({N2(<<n * A[i][1] - s[1], n * A[i][2] - s[2]>>) : i \in DOMAIN L})
(* lists on which the alignment is unambiguous *)
Clean(L) == /\ \A i, j \in Refs(L) : L[i] = L[j] \/ L[i] = Neg(L[j])
            /\ \A i \in DOMAIN L, r \in Refs(L) : L[i] # <<0, 0>> => Dot(L[i], L[r]) # 0
=============================================================================
