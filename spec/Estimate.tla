----------------------------- MODULE Estimate -----------------------------
(* Energy, gradient and averages that a set of configurations (weighted by |psi|^2) or a list of samples (all alike) stands for.
   Per configuration: psi, a = 4 conj(E_loc) psi (Models), env[s] = everything around site s (Net); O*(s) = conj(env[s] / psi) in the
   component the configuration picks, zero in the others. Everything is kept as Gaussian integers by multiplying denominators away. *)
EXTENDS Integers, Sequences, FiniteSets, TLC
MM == INSTANCE Models
NN == INSTANCE Net
Abs2(z) == z[1] * z[1] + z[2] * z[2]
CMul(a, b) == <<a[1] * b[1] - a[2] * b[2], a[1] * b[2] + a[2] * b[1]>>
Conj(z) == <<z[1], 0 - z[2]>>
Plus(a, b) == <<a[1] + b[1], a[2] + b[2]>>
Minus(a, b) == <<a[1] - b[1], a[2] - b[2]>>
Scale(k, z) == <<k * z[1], k * z[2]>>
(* flat tensors <<re, im, re, im, ...>> *)
Zero(n) == TLCEval([i \in 1..n |-> 0])
AddT(x, y) == TLCEval([i \in 1..Len(x) |-> x[i] + y[i]])
SubT(x, y) == TLCEval([i \in 1..Len(x) |-> x[i] - y[i]])
Times(z, x) == TLCEval([i \in 1..Len(x) |-> IF i % 2 = 1 THEN z[1] * x[i] - z[2] * x[i + 1] ELSE z[1] * x[i] + z[2] * x[i - 1]])
ConjT(x) == TLCEval([i \in 1..Len(x) |-> IF i % 2 = 1 THEN x[i] ELSE 0 - x[i]])
(* everything needed of one configuration *)
Data(net, X, M, c) ==
  LET A(k) == NN!Psi(net, X, net.p, k)  t == MM!Table(M, net, c, A)  pk == TLCEval(NN!Pick(X, net.p, c))
  IN [cfg |-> c, psi |-> t.psi, a |-> t.energy, tab |-> t, env |-> TLCEval([s \in 1..Len(c) |-> ConjT(NN!Hole(net, pk, s))])]
RECURSIVE SumZ(_, _, _)
SumZ(D, F(_), n) == IF n = 0 THEN <<0, 0>> ELSE Plus(SumZ(D, F, n - 1), F(D[n]))
RECURSIVE SumT(_, _, _, _, _, _)
SumT(D, F(_), s, b, len, n) == IF n = 0 THEN Zero(len) ELSE LET p == SumT(D, F, s, b, len, n - 1) IN IF D[n].cfg[s] = b THEN AddT(p, Times(F(D[n]), D[n].env[s])) ELSE p
SizeOf(X, P, s, b) == Len(X[(s - 1) * P + b + 1])
(* ---- exact summation: 4 W conj(energy), 4 W^2 gradient, 4 W conj(observable) *)
Weight(D) == LET F(d) == <<Abs2(d.psi), 0>> IN SumZ(D, F, Len(D))[1]
ExactEnergy(D) == LET F(d) == CMul(Conj(d.psi), d.a) IN SumZ(D, F, Len(D))
ExactGradient(D, X, P, s, b) == LET EO(d) == d.a  O(d) == d.psi n == SizeOf(X, P, s, b)
  IN SubT(Times(<<Weight(D), 0>>, SumT(D, EO, s, b, n, Len(D))), Times(ExactEnergy(D), SumT(D, O, s, b, n, Len(D))))
(* ---- N samples, q a common multiple of the |psi|^2: 4 K q conj(energy), N q O*mean *)
Co(d, q) == q \div Abs2(d.psi)
MeanEnergy(D, q) == LET F(d) == Scale(Co(d, q), CMul(Conj(d.psi), d.a)) IN SumZ(D, F, Len(D))
MeanO(D, q, X, P, s, b) == LET O(d) == Scale(Co(d, q), d.psi) IN SumT(D, O, s, b, SizeOf(X, P, s, b), Len(D))
(* the energy is averaged over the samples K that fill whole bins, the derivative over all of D: 4 N K q^2 gradient *)
MeanGradient(D, K, q, X, P, s, b) == LET EO(d) == Scale(Co(d, q), d.a) n == SizeOf(X, P, s, b)
  IN SubT(Times(<<Len(K) * q, 0>>, SumT(D, EO, s, b, n, Len(D))), Times(MeanEnergy(K, q), MeanO(D, q, X, P, s, b)))
Bin(m) == CHOOSE b \in 1..m : b * b <= m /\ (b + 1) * (b + 1) > m
Binned(m) == (m \div Bin(m)) * Bin(m)
SampleO(d, q, X, P, s, b) == IF d.cfg[s] = b THEN Times(Scale(Co(d, q), d.psi), d.env[s]) ELSE <<>>
(* a reported tensor: absent stands for zero *)
Same(x, y) == x = y \/ (x = <<>> /\ \A i \in 1..Len(y) : y[i] = 0)
SameAll(g, n, P, F(_, _)) == Len(g) = n * P /\ \A s \in 1..n : \A b \in 0..(P - 1) : Same(g[(s - 1) * P + b + 1], F(s, b))
=============================================================================
