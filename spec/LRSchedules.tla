---------------------------- MODULE LRSchedules ----------------------------
(* Stateless learning-rate schedules. Rates are fixed-point integers, unit 1e-6.
   Value(s, it, huge) is the documented schedule; `huge` stands for an iteration
   beyond every finite boundary (used for iteration numbers over 2^31). *)
EXTENDS Integers, Sequences, FiniteSets, TLC

S == 1000000
Abs(x) == IF x < 0 THEN -x ELSE x
Min2(a, b) == IF a < b THEN a ELSE b
Max2(a, b) == IF a > b THEN a ELSE b
(* a*b/S with operands up to a few S and no 32-bit overflow: split both at 1000 *)
MulS(a, b) ==
  LET sg == IF (a < 0) # (b < 0) THEN -1 ELSE 1
      x == Abs(a)   y == Abs(b)
      xh == x \div 1000   xl == x % 1000
      yh == y \div 1000   yl == y % 1000
  IN sg * (xh*yh + ((xh*yl + xl*yh) + (xl*yl) \div 1000 + 500) \div 1000)
RECURSIVE PowS(_, _)
PowS(r, n) == IF n = 0 THEN S ELSE IF r = S THEN S ELSE IF r = 0 THEN 0
              ELSE IF n = 1 THEN r ELSE LET h == PowS(r, n \div 2) IN
                   IF n % 2 = 0 THEN MulS(h, h) ELSE MulS(r, MulS(h, h))

(* 2^(-j/12), j = 0..11 *)
TwoRoot == <<1000000, 943874, 890899, 840896, 793701, 749154, 707107, 667420, 629961, 594604, 561231, 529732>>
RECURSIVE Halve(_, _)
Halve(v, n) == IF n = 0 \/ v = 0 THEN v ELSE Halve(v \div 2, n - 1)
TwoToMinus(q12) == LET q == Min2(q12 \div 12, 40) IN Halve(TwoRoot[(q12 % 12) + 1], q)
(* cos(pi j/24), j = 0..24 *)
CosT == <<1000000, 991445, 965926, 923880, 866025, 793353, 707107, 608761, 500000, 382683, 258819, 130526, 0,
          -130526, -258819, -382683, -500000, -608761, -707107, -793353, -866025, -923880, -965926, -991445, -1000000>>

CountLE(m, it) == Cardinality({k \in DOMAIN m : m[k] <= it})

(* r = 1/2^k family for the smooth exponential: rates 0.5, 0.25, 0.125, 0.0625 with period n dividing 12*k *)
LogHalf(r) == CASE r = 500000 -> 1 [] r = 250000 -> 2 [] r = 125000 -> 3 [] r = 62500 -> 4 [] r = S -> 0
ExpVal(s, it) == IF s.r = S THEN s.a
                 ELSE LET steps == Min2(it, 100000) IN MulS(s.a, TwoToMinus((12 * LogHalf(s.r) * steps) \div s.n))

Value(s, it, huge) ==
  CASE s.kind = "const" -> s.a
    [] s.kind = "exp" -> IF huge THEN (IF s.r = S THEN s.a ELSE 0) ELSE ExpVal(s, it)
    [] s.kind = "step" -> IF huge THEN (IF s.r = S THEN s.a ELSE 0) ELSE MulS(s.a, PowS(s.r, Min2(it \div s.n, 4000)))
    [] s.kind = "cos" -> IF s.n = 0 THEN s.b
                         ELSE LET t == IF huge THEN s.n ELSE Min2(it, s.n)
                              IN s.b + MulS(s.a - s.b, (S + CosT[(t * (24 \div s.n)) + 1]) \div 2)
    [] s.kind = "warm" -> IF huge \/ s.n = 0 \/ it >= s.n THEN s.a
                          ELSE s.b + ((s.a - s.b) \div s.n) * (it + 1) + ((((s.a - s.b) % s.n) * (it + 1)) \div s.n)
    [] s.kind = "multi" -> MulS(s.a, PowS(s.r, IF huge THEN Len(s.m) ELSE CountLE(s.m, it)))

(* ---- exhaustive model: every schedule of the set below, walked along the iterations ---- *)
VARIABLES sch, it
vars == <<sch, it>>
Lrs == {80000, 1000000}
Rs == {0, 100000, 500000, 900000, S}
MSets == {<< >>, <<0>>, <<3>>, <<2, 5>>, <<5, 2>>, <<2, 2>>, <<4, 1, 2>>}
Schedules ==
       [kind : {"const"}, a : Lrs]
  \cup [kind : {"exp"}, a : Lrs, r : {500000, 250000, 125000, 62500, S}, n : {1, 2, 3, 4, 6, 12}]
  \cup [kind : {"step"}, a : Lrs, r : Rs, n : 1..5]
  \cup [kind : {"cos"}, a : Lrs, b : {0, 10000, 80000}, n : {0, 1, 2, 3, 4, 6, 8, 12, 24}]
  \cup [kind : {"warm"}, a : Lrs, b : {0, 10000}, n : 0..6]
  \cup [kind : {"multi"}, a : Lrs, r : Rs, m : MSets]
MaxIt == 30
Init == sch \in Schedules /\ it = 0
Next == it < MaxIt /\ it' = it + 1 /\ UNCHANGED sch
Spec == Init /\ [][Next]_vars
Cur == Value(sch, it, FALSE)
InRange == LET lo == CASE sch.kind \in {"cos", "warm"} -> Min2(sch.a, sch.b) [] sch.kind = "const" -> sch.a [] OTHER -> 0
               hi == IF sch.kind \in {"cos", "warm"} THEN Max2(sch.a, sch.b) ELSE sch.a
           IN lo <= Cur /\ Cur <= hi
StartsAt == it = 0 => CASE sch.kind \in {"exp", "step"} -> Cur = sch.a
                        [] sch.kind = "cos" -> Cur = (IF sch.n = 0 THEN sch.b ELSE sch.a) [] OTHER -> TRUE
EndsAt == CASE sch.kind = "cos" -> (it >= sch.n => Cur = sch.b)
            [] sch.kind = "warm" -> (it >= sch.n => Cur = sch.a)
            [] sch.kind = "multi" -> (\A k \in DOMAIN sch.m : sch.m[k] <= it) => Cur = Value(sch, 0, TRUE)
            [] OTHER -> TRUE
Monotone == [][ IF sch.kind = "warm" /\ sch.b <= sch.a THEN Value(sch', it', FALSE) >= Cur
                ELSE IF sch.kind = "cos" /\ sch.b > sch.a THEN Value(sch', it', FALSE) >= Cur
                ELSE Value(sch', it', FALSE) <= Cur ]_vars
StepFlat == [][ sch.kind = "step" /\ it' % sch.n # 0 => Value(sch', it', FALSE) = Cur ]_vars
=============================================================================
