----------------------------- MODULE PsiConsMC -----------------------------
(* Exhaustive check of the summary's own laws on all short lists: reordering and individual sign flips change neither
   the relative error nor (up to an overall sign) the mean; the mean never vanishes on a non-zero list. *)
EXTENDS PsiCons
CONSTANTS N, V, CPLX
VARIABLES L, step
Im == IF CPLX THEN -V..V ELSE {0}
Lists == UNION {[1..n -> {<<a, b>> : a \in -V..V, b \in Im}] : n \in 1..N}
Init == L \in Lists /\ step = 0
R(X) == CHOOSE r \in Refs(X) : TRUE
Same(X, Y) == /\ Dev2(X, R(X)) = Dev2(Y, R(Y))
              /\ S(X, R(X)) = S(Y, R(Y)) \/ S(X, R(X)) = Neg(S(Y, R(Y)))
Swap(i) == [L EXCEPT ![i] = L[i + 1], ![i + 1] = L[i]]
Flip(i) == [L EXCEPT ![i] = Neg(@)]
Next == step < 1 /\ step' = 1 /\ (\/ \E i \in 1..(Len(L) - 1) : L' = Swap(i)
                                  \/ \E i \in DOMAIN L : L' = Flip(i))
Spec == Init /\ [][Next]_<<L, step>>
Invariance == [][Clean(L) => (Clean(L') /\ Same(L, L'))]_<<L, step>>
NonZero == (\E i \in DOMAIN L : L[i] # <<0, 0>>) => \A r \in Refs(L) : S(L, r) # <<0, 0>>
ZeroSpread == (\A i, j \in DOMAIN L : L[i] = L[j] \/ L[i] = Neg(L[j])) => \A r \in Refs(L) : Dev2(L, r) = 0
=============================================================================
