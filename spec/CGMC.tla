-------------------------------- MODULE CGMC --------------------------------
(* Facts behind the contract, for every small symmetric positive definite 2x2 system: the first step is the exact line
   minimum and never increases the energy norm; two conjugate steps reach the exact solution. *)
EXTENDS CG, TLC
CONSTANTS B
VARIABLES A, b
V2 == {<<<<x, 0>>, <<y, 0>>>> : x \in (0 - B)..B, y \in (0 - B)..B}
Init == /\ b \in V2 /\ \E p \in 1..(2 * B), q \in (0 - B)..B, s \in 1..(2 * B) : p * s > q * q /\ A = <<<<<<p, 0>>, <<q, 0>>>>, <<<<q, 0>>, <<s, 0>>>>>>
Next == UNCHANGED <<A, b>>
Spec == Init /\ [][Next]_<<A, b>>
c == [A |-> A, b |-> b, x0 |-> <<<<0, 0>>, <<0, 0>>>>, max |-> 9, tn |-> 0, td |-> 1, spd |-> TRUE, std |-> TRUE]
rr == Nrm2(b)
pap == Pap(c)[1]
(* phi(t) = t^2 pap / 2 - t rr is smallest at t = rr/pap:  compare at t = u/v *)
Minimal == rr > 0 => \A u \in -3..3, v \in 1..3 : u * u * pap * pap - 2 * u * v * rr * pap >= -(rr * rr * v * v)
FirstDown == rr > 0 => pap > 0
(* second direction: r1 + beta r0 with r1 = r0 - (rr/pap) A r0, scaled by pap *)
R1 == [i \in 1..2 |-> pap * b[i][1] - rr * MulV(A, b)[i][1]]
rr1 == R1[1] * R1[1] + R1[2] * R1[2]           \* |r1|^2 * pap^2
P1 == [i \in 1..2 |-> R1[i] * rr * pap + rr1 * b[i][1]]     \* p1 * rr * pap^2
AP(v) == [i \in 1..2 |-> A[i][1][1] * v[1] + A[i][2][1] * v[2]]
Conjugate == AP([i \in 1..2 |-> b[i][1]])[1] * P1[1] + AP([i \in 1..2 |-> b[i][1]])[2] * P1[2] = 0
Orthogonal == R1[1] * b[1][1] + R1[2] * b[2][1] = 0
Solves == (rr > 0 /\ rr1 > 0) => Conjugate /\ Orthogonal
=============================================================================
