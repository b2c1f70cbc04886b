------------------------------ MODULE ObsMatMC ------------------------------
EXTENDS ObsMat, Json, IOUtils, CSV
CONSTANTS K, EMIT
VARIABLES hist
vars == <<t, hist>>
Shapes == {<<0, 0>>, <<1, 2>>, <<2, 1>>, <<2, 3>>}
H(x) == hist' = Append(hist, x)
Init == t = [k \in 1..2 |-> Mk(0, 0, 0)] /\ hist = << >>
Next == /\ Len(hist) < K
        /\ \/ \E s \in Shapes : Resize(1, s[1], s[2], 7) /\ H(<<"resize", 1, s[1], s[2], 7>>)
           \/ \E s \in {<<1, 2>>, <<3, 2>>} : Resize(2, s[1], s[2], 0) /\ H(<<"resize", 2, s[1], s[2], 0>>)
           \/ \E k \in 1..2, i \in 0..2, j \in {0, 2} : Put(k, i, j, 20 + Len(hist)) /\ H(<<"set", k, i, j, 20 + Len(hist)>>)
           \/ \E i \in 0..2, j \in 0..1 : AddTo(1, i, j, 3) /\ H(<<"adds", 1, i, j, 3>>)
           \/ CopyT(1, 2) /\ H(<<"copy", 1, 2>>)
           \/ ExtractT(1, 2, 2, 1) /\ H(<<"extract", 1, 2, 2, 1>>)
Spec == Init /\ [][Next]_vars
Shape == \A k \in 1..2 : DOMAIN t[k].cell = 1..(t[k].r * t[k].c)
Injective == \A k \in 1..2 : \A a, b \in {<<i, j>> : i \in 0..2, j \in 0..2} :
               (In(t[k], a[1], a[2]) /\ In(t[k], b[1], b[2]) /\ Ix(t[k], a[1], a[2]) = Ix(t[k], b[1], b[2])) => a = b
CellLocal == [][ LET h == hist'[Len(hist')] IN h[1] \in {"set", "adds"} =>
                   \A k \in 1..2 : /\ t'[k].r = t[k].r /\ t'[k].c = t[k].c
                                   /\ \A n \in DOMAIN t[k].cell : t'[k].cell[n] # t[k].cell[n] => k = h[2] /\ In(t[k], h[3], h[4]) /\ n = Ix(t[k], h[3], h[4]) ]_vars
Emit == (EMIT /\ Len(hist) = K) => CSVWrite("%1$s", <<ToJson(hist)>>, IOEnv.OUT)
View == <<t, Len(hist)>>
=============================================================================
