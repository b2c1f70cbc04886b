------------------------------ MODULE RulesMC ------------------------------
(* Laws of the update rules, for all small gradients / curvature pairs. *)
EXTENDS Rules
CONSTANTS G, CV, CN, Kind
VARIABLES a, b, c, cv, cn
V(S) == {<<<<K * i, K * j>>, <<K * k, 0>>>> : i \in S, j \in S, k \in S}
P == [alg |-> "sgd", lr4 |-> 4, cv |-> cv, cn |-> cn, mu4 |-> 0, wd4 |-> 0]
S == -G..G
Init == /\ a \in V(S)
        /\ IF Kind = "clip" THEN b = a /\ c = a /\ cv \in CV /\ cn \in CN ELSE b \in V(S) /\ c \in V(-1..1) /\ cv = 0 /\ cn = 0
Next == UNCHANGED <<a, b, c, cv, cn>>
Spec == Init /\ [][Next]_<<a, b, c, cv, cn>>
g == Grad(P, a)
ElementsBounded == cv > 0 => \A i \in 1..2 : Mag(g[i]) <= cv * K + 2
NormBounded == cn > 0 => Norm(g) <= cn * K + 3
SameDirection == \A i \in 1..2 : Abs(g[i][1] * (a[i][2] \div K) - g[i][2] * (a[i][1] \div K)) <= 30 /\ g[i][1] * (a[i][1] \div K) >= 0 /\ g[i][2] * (a[i][2] \div K) >= 0
Idempotent == Close(Grad(P, g), g, 3)
NeverGrows == Norm(g) <= Norm(a) + 2
Inactive == (\A i \in 1..2 : cv = 0 \/ Mag(a[i]) <= cv * K) /\ (cn = 0 \/ Norm(a) <= cn * K) => g = a
(* quasi-Newton: with the newest pair (a, b) of positive curvature, H b = a and H keeps descent *)
Pos == Dot(a, b) >= K
Secant == Pos => Close(HGrad(<<a>>, <<b>>, b), a, 20)
SecantTwo == Pos /\ Dot(c, b) >= K => Close(HGrad(<<c, a>>, <<b, b>>, b), a, 60)
Descent == Pos /\ c # Zero(c) => Dot(c, HGrad(<<a>>, <<b>>, c)) >= -20
=============================================================================
