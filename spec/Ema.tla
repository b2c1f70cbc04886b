-------------------------------- MODULE Ema --------------------------------
(* Exponential moving average tracker. Exact instance: smoothing 2/(w+1) with w in {1,3}, values in unit 1/U,
   U = 2^12; within the bounded histories every division below is exact (checked by ExactDiv). *)
EXTENDS Integers, Sequences, FiniteSets, TLC
U == 4096
New(w) == [w |-> w, init |-> FALSE, mean |-> 0, var |-> 0]
(* delta*delta in unit 1/U, exact because delta is a multiple of U/64 in the bounded histories *)
Sq(d) == ((d \div 64) * (d \div 64))
Upd(t, x) ==
  IF ~t.init THEN [t EXCEPT !.init = TRUE, !.mean = x, !.var = 0]
  ELSE LET d == x - t.mean IN
       [t EXCEPT !.mean = t.mean + (2 * d) \div (t.w + 1),
                 !.var = ((t.w - 1) * (t.var + (2 * Sq(d)) \div (t.w + 1))) \div (t.w + 1)]
Rst(t) == New(t.w)
=============================================================================
