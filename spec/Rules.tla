------------------------------- MODULE Rules -------------------------------
(* Update rules of the optimizer on a parameter vector (sequence of <<re, im>>), fixed point in 1/K.
   p: [alg, lr4, cv, cn, mu4, wd4, b1, b2, ini, hist, damp, cap]  (lr4 = 4*lr, cv/cn clip thresholds or 0, mu4/wd4 quarters,
       b1/b2 = <<num, den>>, ini = initial accumulator, cap = direction norm cap or 0)
   m: optimizer memory [t, vel, a, b, hs, hy, anchor]                                                       *)
EXTENDS Integers, Sequences, FiniteSets, TLC
K == 1000
RECURSIVE Newton(_, _)
Newton(n, x) == LET y == (x + n \div x) \div 2 IN IF y >= x THEN x ELSE Newton(n, y)
RECURSIVE Up(_, _)
Up(n, x) == IF x >= 46340 \/ x * x >= n THEN x ELSE Up(n, 2 * x)
Isqrt(n) == IF n <= 0 THEN 0 ELSE Newton(n, IF Up(n, 1) > 46340 THEN 46340 ELSE Up(n, 1))
Abs(a) == IF a < 0 THEN -a ELSE a
R(a, b) == IF b < 0 THEN ((0 - a) + (0 - b) \div 2) \div (0 - b) ELSE (a + b \div 2) \div b      \* rounded a/b
Map2(f(_), v) == [i \in 1..Len(v) |-> <<f(v[i][1]), f(v[i][2])>>]
Add(u, v) == TLCEval([i \in 1..Len(u) |-> <<u[i][1] + v[i][1], u[i][2] + v[i][2]>>])
Sub(u, v) == TLCEval([i \in 1..Len(u) |-> <<u[i][1] - v[i][1], u[i][2] - v[i][2]>>])
Scale(u, a, b) == TLCEval([i \in 1..Len(u) |-> <<R(u[i][1] * a, b), R(u[i][2] * a, b)>>])
Zero(v) == TLCEval([i \in 1..Len(v) |-> <<0, 0>>])
RECURSIVE SqTo(_, _)
SqTo(v, k) == IF k = 0 THEN 0 ELSE v[k][1] * v[k][1] + v[k][2] * v[k][2] + SqTo(v, k - 1)
Mag(z) == Isqrt(z[1] * z[1] + z[2] * z[2])
Big(v, n) == \E i \in 1..Len(v), q \in {1, 2} : v[i][q] > n \/ v[i][q] < -n
Norm(v) == IF Big(v, 90000) THEN LET w == Scale(v, 1, 100) IN 100 * Isqrt(SqTo(w, Len(w))) ELSE IF Big(v, 12000) THEN LET w == Scale(v, 1, 8) IN 8 * Isqrt(SqTo(w, Len(w))) ELSE Isqrt(SqTo(v, Len(v)))
(* ---- gradient clipping: element magnitudes first (phase kept), then the global norm *)
ClipEl(z, c) == IF c > 0 /\ Mag(z) > c * K THEN <<R(z[1] * c * K, Mag(z)), R(z[2] * c * K, Mag(z))>> ELSE z
ClipVal(g, c) == TLCEval([i \in 1..Len(g) |-> ClipEl(g[i], c)])
ClipNorm(g, c) == IF c > 0 /\ Norm(g) > c * K THEN Scale(g, c * K, Norm(g)) ELSE g
First(p) == p.alg \in {"sgd", "mom", "nag", "ada", "adam"}
Grad(p, g) == IF First(p) THEN ClipNorm(ClipVal(g, p.cv), p.cn) ELSE g
(* ---- SGD family, with decoupled weight decay *)
Decay(p, x) == IF p.wd4 > 0 /\ p.alg \in {"sgd", "mom", "nag", "adam"} THEN Scale(x, 16 - p.lr4 * p.wd4, 16) ELSE x
Mem0(v) == [t |-> 0, vel |-> Zero(v), a |-> Zero(v), b |-> Zero(v), hs |-> <<>>, hy |-> <<>>, has |-> FALSE, ax |-> Zero(v), ag |-> Zero(v)]
Vel(p, m, g) == Add(Scale(m.vel, p.mu4, 4), g)
(* ---- adaptive rules: element-wise second moments (real) in 1/(10 K), first moments in 1/(16 K) *)
Sq(g) == TLCEval([i \in 1..Len(g) |-> <<R(g[i][1] * g[i][1] + g[i][2] * g[i][2], 100), 0>>])
Over(g, b, f) == TLCEval([i \in 1..Len(g) |-> LET r == Isqrt(b[i][1] * 100) * f IN IF r = 0 THEN <<0, 0>> ELSE <<R(g[i][1] * K, r), R(g[i][2] * K, r)>>])
RECURSIVE Pow(_, _)
Pow(a, n) == IF n = 0 THEN 1 ELSE a * Pow(a, n - 1)
Bias(b, t, u) == <<R(u * Pow(b[2], t), Pow(b[2], t) - Pow(b[1], t)), u>>   \* 1/(1 - beta^t)
(* ---- L-BFGS on the real vector of all components *)
Dot(u, v) == LET RECURSIVE D(_)
                 D(k) == IF k = 0 THEN 0 ELSE R(u[k][1] * v[k][1], K) + R(u[k][2] * v[k][2], K) + D(k - 1) IN D(Len(u))
Q(a, b) == R(a * K, b)                                        \* quotient of two 1/K numbers
Axpy(u, c, v) == Add(u, Scale(v, c, K))
RECURSIVE Back(_, _, _, _)
Back(hs, hy, k, acc) == \* newest to oldest: acc = [q, al]
  IF k = 0 THEN acc ELSE LET al == Q(Dot(hs[k], acc.q), Dot(hs[k], hy[k])) IN Back(hs, hy, k - 1, [q |-> Axpy(acc.q, -al, hy[k]), al |-> [acc.al EXCEPT ![k] = al]])
RECURSIVE Fwd(_, _, _, _, _)
Fwd(hs, hy, k, al, r) == IF k > Len(hs) THEN r ELSE LET be == Q(Dot(hy[k], r), Dot(hs[k], hy[k])) IN Fwd(hs, hy, k + 1, al, Axpy(r, al[k] - be, hs[k]))
HGrad(hs, hy, g) == IF Len(hs) = 0 THEN g ELSE
  LET n == Len(hs) b == Back(hs, hy, n, [q |-> g, al |-> [i \in 1..n |-> 0]]) IN Fwd(hs, hy, 1, b.al, Scale(b.q, Dot(hs[n], hy[n]), Dot(hy[n], hy[n])))
Cap(p, d) == IF p.cap > 0 /\ Norm(d) > p.cap * K THEN Scale(d, p.cap * K, Norm(d)) ELSE d
Tail1(q, n) == IF Len(q) > n THEN SubSeq(q, Len(q) - n + 1, Len(q)) ELSE q
Hist(p, m, x, g) == \* the memory after looking at the accepted step that led to x
  IF ~m.has THEN m ELSE
  LET s == Sub(x, m.ax) y == Sub(g, m.ag) c == Dot(s, y)
      yd == IF c <= 0 /\ p.damp THEN Add(y, Scale(s, R((0 - c) * K, Dot(y, y)), K)) ELSE y
      cd == Dot(s, yd) IN
  IF cd <= 0 THEN m ELSE [m EXCEPT !.hs = Tail1(Append(m.hs, s), p.hist), !.hy = Tail1(Append(m.hy, yd), p.hist)]
(* too close to a branch or to overflow for the fixed-point mirror: the run is not judged any further *)
Fuzzy(p, m, x, g) == p.alg = "lbfgs" /\ m.has /\
  LET s == Sub(x, m.ax) y == Sub(g, m.ag) c == Dot(s, y) yd == IF c <= 0 /\ p.damp THEN Add(y, Scale(s, R((0 - c) * K, Dot(y, y)), K)) ELSE y
  IN Big(s, 30000) \/ Big(y, 30000) \/ Abs(c) < K \div 2 \/ Dot(y, y) < K \/ Abs(Dot(s, yd)) < K \/ Abs(c) > 900 * K
     \/ Dot(s, s) > 8 * Abs(Dot(s, yd)) \/ Big(yd, 30000)
(* ---- one accepted iteration: new memory and new state *)
Step(p, m0, x, g0) ==
  LET g == Grad(p, g0) IN
  CASE p.alg = "sgd" -> [m |-> m0, x |-> Sub(Decay(p, x), Scale(g, p.lr4, 4))]
    [] p.alg = "mom" -> LET v == Vel(p, m0, g) IN [m |-> [m0 EXCEPT !.vel = v], x |-> Sub(Decay(p, x), Scale(v, p.lr4, 4))]
    [] p.alg = "nag" -> LET v == Vel(p, m0, g) IN [m |-> [m0 EXCEPT !.vel = v], x |-> Sub(Decay(p, x), Scale(Add(Scale(v, p.mu4, 4), g), p.lr4, 4))]
    [] p.alg = "ada" -> LET b == Add(IF m0.t = 0 THEN [i \in 1..Len(x) |-> <<p.ini * 10 * K, 0>>] ELSE m0.b, Sq(g)) IN
                        [m |-> [m0 EXCEPT !.t = 1, !.b = b], x |-> Sub(x, Scale(Over(g, b, 1), p.lr4, 4))]
    [] p.alg = "adam" -> LET t == m0.t + 1
                             a == Add(Scale(m0.a, p.b1[1], p.b1[2]), Scale(g, 16 * (p.b1[2] - p.b1[1]), p.b1[2]))
                             b == Add(Scale(m0.b, p.b2[1], p.b2[2]), Scale(Sq(g), p.b2[2] - p.b2[1], p.b2[2]))
                             ah == Scale(a, Bias(p.b1, t, 1000)[1], 1000) bh == Scale(b, Bias(p.b2, t, 100)[1], 100)
                         IN [m |-> [m0 EXCEPT !.t = t, !.a = a, !.b = b], x |-> Sub(Decay(p, x), Scale(Over(ah, bh, 16), p.lr4, 4))]
    [] p.alg = "lbfgs" -> LET m == Hist(p, m0, x, g) d == Cap(p, HGrad(m.hs, m.hy, g)) IN
                          [m |-> [m EXCEPT !.has = TRUE, !.ax = x, !.ag = g], x |-> Sub(x, Scale(d, p.lr4, 4))]
(* tolerance of the comparison in 1/K, relative to the size of the change *)
Close(u, v, tol) == \A i \in 1..Len(u), q \in {1, 2} : Abs(u[i][q] - v[i][q]) <= tol
Tol(p, x, y) == LET n == Norm(Sub(y, x)) IN IF p.alg = "lbfgs" THEN 25 + n \div 25 ELSE IF p.alg \in {"ada", "adam"} THEN 12 ELSE 8
=============================================================================
