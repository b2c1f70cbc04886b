----------------------------- MODULE JastrowMC -----------------------------
EXTENDS Jastrow, TLC
CONSTANTS MaxN, B
VARIABLES n, t, d
Init == /\ n \in 1..MaxN /\ t \in [Pairs(n) -> (0 - B)..B] /\ d \in [1..n -> 0..2]
Next == UNCHANGED <<n, t, d>>
Spec == Init /\ [][Next]_<<n, t, d>>
Symmetric == \A i, j \in 0..(n - 1) : Get(t, i, j) = Get(t, j, i)
Local == \A i, j \in 0..(n - 1) : i # j => \A a, b \in 0..(n - 1) : {a, b} # {i, j} => Get(Put(t, i, j, 9), a, b) = Get(t, a, b)
FieldIsDifference == \A i \in 0..(n - 1) : Exponent(t, [d EXCEPT ![i + 1] = @ + 1]) - Exponent(t, d) = Field(t, d, i)
Bijection == {Packed(n, i, j) : i \in 0..(n - 1), j \in 0..(n - 1)} # {} /\ {Packed(n, q[1], q[2]) : q \in {x \in (0..(n - 1)) \X (0..(n - 1)) : x[1] < x[2]}} = 0..((n * (n - 1)) \div 2 - 1)
=============================================================================
