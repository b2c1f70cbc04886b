------------------------------ MODULE Jastrow ------------------------------
(* Pair factor: a symmetric table over unordered pairs of distinct sites, zero on the diagonal. *)
EXTENDS Integers, Sequences, FiniteSets
Get(t, i, j) == IF i = j THEN 0 ELSE t[{i, j}]
Put(t, i, j, x) == [t EXCEPT ![{i, j}] = x]
Pairs(n) == {{i, j} : i \in 0..(n - 1), j \in 0..(n - 1)} \ {{i} : i \in 0..(n - 1)}
Zero(n) == [p \in Pairs(n) |-> 0]
Filled(n, f(_, _)) == [p \in Pairs(n) |-> LET i == CHOOSE a \in p : \A b \in p : a <= b IN LET j == CHOOSE a \in p : a # i IN f(i, j)]
RECURSIVE FieldTo(_, _, _, _)
FieldTo(t, d, i, k) == IF k < 0 THEN 0 ELSE Get(t, i, k) * d[k + 1] + FieldTo(t, d, i, k - 1)
Field(t, d, i) == FieldTo(t, d, i, Len(d) - 1)
(* total exponent sum_{i<j} v_ij n_i n_j; a change of n_i by c changes it by c * Field *)
RECURSIVE ExpTo(_, _, _)
ExpTo(t, d, k) == IF k < 0 THEN 0 ELSE d[k + 1] * FieldTo(t, d, k, k - 1) + ExpTo(t, d, k - 1)
Exponent(t, d) == ExpTo(t, d, Len(d) - 1)
(* the packed storage: i*n + j - (i+1)(i+2)/2 numbers the pairs i<j of n sites *)
Packed(n, i, j) == i * n + j - ((i + 1) * (i + 2)) \div 2
=============================================================================
