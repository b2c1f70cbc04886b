------------------------------- MODULE Wolfe -------------------------------
(* Strong-Wolfe line search of the L-BFGS step, on exact numbers: step lengths in 1/U, c1 and c2 in sixteenths, energies and
   slopes integers.  w: [c1, c2, min, max, lr, tc, tg16, cap, fb, fbs]  (tc: interval tolerance in 1/U, tg16: slope floor in
   sixteenths, cap: evaluation limit, fb: fallback allowed, fbs: fallback scale in quarters).
   s: search state [ph, n, a, ap, pp, lo, plo, hi, phi0, d0]                                                          *)
EXTENDS Integers, Sequences, FiniteSets
U == 1024
Abs(x) == IF x < 0 THEN -x ELSE x
Max(a, b) == IF a > b THEN a ELSE b
Min(a, b) == IF a < b THEN a ELSE b
Start(w) == Min(Max(w.lr, w.min), w.max)
Search0(w, phi0, d0) == [ph |-> IF d0 >= 0 THEN "fail" ELSE IF w.cap = 0 THEN "bad" ELSE "out", n |-> 0, a |-> Start(w), ap |-> 0, pp |-> phi0, lo |-> 0, plo |-> 0, hi |-> 0, phi0 |-> phi0, d0 |-> d0]
Armijo(w, s, a, phi) == 16 * U * (phi - s.phi0) <= w.c1 * a * s.d0
Flat(w, s, d) == 16 * Abs(d) <= Max(0 - w.c2 * s.d0, w.tg16)
Zoom(w, s, lo, plo, hi) == \* enter (or stay in) the bracket
  LET t == [s EXCEPT !.lo = lo, !.plo = plo, !.hi = hi] IN
  IF t.n >= w.cap THEN [t EXCEPT !.ph = "fail"] ELSE [t EXCEPT !.ph = "zoom", !.a = (lo + hi) \div 2]
Shrunk(w, s, lo, plo, hi) == IF Abs(hi - lo) <= w.tc THEN [s EXCEPT !.ph = "fail"] ELSE Zoom(w, s, lo, plo, hi)
Probe(w, s0, phi, d) == \* the trial at s0.a returned energy phi and slope d
  LET s == [s0 EXCEPT !.n = @ + 1] a == s.a IN
  IF s.ph = "out" THEN
    IF ~Armijo(w, s, a, phi) \/ (s.n > 1 /\ phi >= s.pp) THEN Zoom(w, s, s.ap, s.pp, a)
    ELSE IF Flat(w, s, d) THEN [s EXCEPT !.ph = "ok"]
    ELSE IF d >= 0 THEN Zoom(w, s, a, phi, s.ap)
    ELSE LET nx == Min(2 * a, w.max) IN
         IF nx - a <= w.tc \/ s.n >= w.cap THEN [s EXCEPT !.ph = "fail"] ELSE [s EXCEPT !.ap = a, !.pp = phi, !.a = nx]
  ELSE
    IF ~Armijo(w, s, a, phi) \/ phi >= s.plo THEN Shrunk(w, s, s.lo, s.plo, a)
    ELSE IF Flat(w, s, d) THEN [s EXCEPT !.ph = "ok"]
    ELSE Shrunk(w, s, a, phi, IF d * (s.hi - s.lo) >= 0 THEN s.lo ELSE s.hi)
Running(s) == s.ph \in {"out", "zoom"}
Odd(s) == (s.lo + s.hi) % 2 # 0                   \* the bisection point is no longer on the grid
Fallback(w) == Max(w.min, (w.lr * w.fbs) \div 4)
=============================================================================
