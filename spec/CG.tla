--------------------------------- MODULE CG ---------------------------------
(* Contract of the linear solver for A x = b (A self-adjoint, integer entries as <<re, im>>).  Results are fixed-point:
   x in 1/K, residual norms in 1/100.  A result is [x, res, it, why]. *)
EXTENDS Integers, Sequences, FiniteSets
K == 10000
CMul(a, b) == <<a[1] * b[1] - a[2] * b[2], a[1] * b[2] + a[2] * b[1]>>
CAdd(a, b) == <<a[1] + b[1], a[2] + b[2]>>
CSub(a, b) == <<a[1] - b[1], a[2] - b[2]>>
Conj(a) == <<a[1], -a[2]>>
RECURSIVE DotTo(_, _, _)
DotTo(u, v, i) == IF i = 0 THEN <<0, 0>> ELSE CAdd(CMul(u[i], v[i]), DotTo(u, v, i - 1))
MulV(A, v) == [i \in 1..Len(v) |-> DotTo(A[i], v, Len(v))]
Inner(u, v) == DotTo([i \in 1..Len(u) |-> Conj(u[i])], v, Len(u))
Resid(A, b, x, s) == [i \in 1..Len(b) |-> CSub(<<s * b[i][1], s * b[i][2]>>, MulV(A, x)[i])]   \* x in 1/s
Nrm2(v) == Inner(v, v)[1]
Down(v) == [i \in 1..Len(v) |-> <<(v[i][1] + 50) \div 100, (v[i][2] + 50) \div 100>>]         \* 1/K -> 1/100
IsRoot(r, q) == (r + 3) * (r + 3) >= q /\ (IF r > 3 THEN (r - 3) * (r - 3) <= q ELSE TRUE)
Max2(a, b) == IF a > b THEN a ELSE b
Abs(a) == IF a < 0 THEN -a ELSE a
(* ---- what a call may return. c: [A, b, x0, max, tn, td, spd, std] with tolerance tn/td on the residual norm *)
R0(c) == Resid(c.A, c.b, c.x0, 1)
Pap(c) == Inner(R0(c), MulV(c.A, R0(c)))
WithinTol(c, res) == res * c.td <= 100 * c.tn + c.td
AboveTol(c, res) == res * c.td >= 100 * c.tn - c.td
Start(c) == [i \in 1..Len(c.x0) |-> <<K * c.x0[i][1], K * c.x0[i][2]>>]
InitOk(c) == Nrm2(R0(c)) * c.td * c.td <= c.tn * c.tn
Honest(c, r) == IsRoot(r.res, Nrm2(Down(Resid(c.A, c.b, r.x, K))))                             \* the reported residual is the residual of the returned x
NoWorse(c, r) == (r.res - 2) * (r.res - 2) <= 10000 * Nrm2(R0(c)) \/ r.res <= 2
Bounded(c, r) == r.it <= c.max /\ (r.why = "kMaxIterations" => r.it = c.max)
ConvIffTol(c, r) == IF r.why = "kConverged" THEN WithinTol(c, r.res) ELSE AboveTol(c, r.res)
Immediate(c, r) == InitOk(c) => r.why = "kConverged" /\ r.it = 0 /\ r.x = Start(c)
NoBudget(c, r) == (~InitOk(c) /\ c.max = 0) => r.why = "kMaxIterations" /\ r.it = 0 /\ r.x = Start(c)
Indef(c, r) == (~InitOk(c) /\ c.max > 0 /\ Pap(c)[1] <= 0) => r.why = "kIndefiniteMatrix" /\ r.it = 0 /\ r.x = Start(c)
FiniteSteps(c, r) == (c.spd /\ c.std /\ c.max >= Len(c.b) + 2) => r.why = "kConverged" /\ r.it <= Len(c.b) + 2
FirstStep(c, r) == \* one iteration from x0 is the exact line minimisation along the residual
  (c.spd /\ c.max = 1 /\ ~InitOk(c) /\ r.x # Start(c) /\ Pap(c)[1] < 4000 /\ Nrm2(R0(c)) < 500) =>
     \A i \in 1..Len(c.b), q \in {1, 2} : Abs(Pap(c)[1] * (r.x[i][q] - K * c.x0[i][q]) - K * Nrm2(R0(c)) * R0(c)[i][q]) <= 2 * Pap(c)[1]
Allowed(c, r) == Honest(c, r) /\ NoWorse(c, r) /\ Bounded(c, r) /\ ConvIffTol(c, r) /\ Immediate(c, r) /\ NoBudget(c, r) /\ Indef(c, r) /\ FiniteSteps(c, r) /\ FirstStep(c, r)
(* more iterations never make the answer worse, and a converged call is final *)
Later(r, q) == q.res <= r.res + 1 /\ (r.why = "kConverged" => q.why = "kConverged" /\ q.it = r.it /\ q.x = r.x)
              /\ (r.why = "kMaxIterations" => q.it >= r.it)
=============================================================================
