------------------------------- MODULE TpsAlg -------------------------------
(* Split-index states as points of a vector space with exact (Gaussian-integer) entries, and their files.
   A value is [g, bc, p, t]: geometry number (0: no object), boundary (0 open, 1 periodic), physical dimension and, per
   site and component (row-major, component fastest), the entries <<re, im, re, im, ...>>; <<>> is an absent (zero) tensor,
   <<0>> a site whose memory was released.
   A directory is [kind, g, bc, p, t]: kind "none" | "meta" (current format) | "nobc" (metadata without boundary) | "old"
   (only the physical dimension recorded) | "bad" (metadata unreadable); a damaged tensor file is <<1>>, a missing one <<2>>. *)
EXTENDS Integers, Sequences, FiniteSets, TLC
None == [g |-> 0, bc |-> 0, p |-> 0, t |-> <<>>]
Map(a, F(_)) == [a EXCEPT !.t = TLCEval([i \in 1..Len(a.t) |-> IF Len(a.t[i]) < 2 THEN a.t[i] ELSE TLCEval(F(a.t[i]))])]
PlusT(x, y) == IF Len(x) < 2 THEN y ELSE IF Len(y) < 2 THEN x ELSE [i \in 1..Len(x) |-> x[i] + y[i]]
Plus(a, b) == [a EXCEPT !.t = TLCEval([i \in 1..Len(a.t) |-> TLCEval(PlusT(a.t[i], b.t[i]))])]
ScaleT(x, sr, si) == [i \in 1..Len(x) |-> IF i % 2 = 1 THEN x[i] * sr - x[i + 1] * si ELSE x[i] * sr + x[i - 1] * si]
Scale(a, sr, si) == LET F(x) == ScaleT(x, sr, si) IN Map(a, F)
Neg(a) == Scale(a, -1, 0)
Minus(a, b) == Plus(a, Neg(b))
SquareT(x) == [i \in 1..Len(x) |-> IF i % 2 = 1 THEN x[i] * x[i] - x[i + 1] * x[i + 1] ELSE 2 * x[i] * x[i - 1]]
NormT(x) == [i \in 1..Len(x) |-> IF i % 2 = 1 THEN x[i] * x[i] + x[i + 1] * x[i + 1] ELSE 0]
AbsT(x) == [i \in 1..Len(x) |-> IF x[i] < 0 THEN -x[i] ELSE x[i]]
Square(a) == Map(a, SquareT)
SqNorm(a) == Map(a, NormT)
AbsOf(a) == Map(a, AbsT)                          \* square root of the square, real entries
RECURSIVE DotT(_, _, _, _)
DotT(x, y, i, part) == \* sum of conj(x) y over the first i numbers
  IF i = 0 THEN 0 ELSE DotT(x, y, i - 2, part) + (IF part = "re" THEN x[i - 1] * y[i - 1] + x[i] * y[i] ELSE x[i - 1] * y[i] - x[i] * y[i - 1])
RECURSIVE DotTo(_, _, _, _)
DotTo(a, b, k, part) == IF k = 0 THEN 0 ELSE DotTo(a, b, k - 1, part) + (IF Len(a.t[k]) < 2 \/ Len(b.t[k]) < 2 THEN 0 ELSE DotT(a.t[k], b.t[k], Len(a.t[k]), part))
Dot(a, b) == <<DotTo(a, b, Len(a.t), "re"), DotTo(a, b, Len(a.t), "im")>>
NormSq(a) == Dot(a, a)[1]
SiteSq(a, s) == LET q == [a EXCEPT !.t = SubSeq(a.t, (s - 1) * a.p + 1, s * a.p)] IN NormSq(q)     \* s: site number
(* ---- bonds: geometry [r, c, d], d[site] = <<west, south, east, north>> *)
Bonds(G, bc) == [i \in 1..(2 * G.r * G.c) |-> LET s == (i + 1) \div 2 row == (s - 1) \div G.c col == (s - 1) % G.c IN
   IF i % 2 = 1 THEN (IF bc = 1 \/ row < G.r - 1 THEN G.d[s][2] ELSE 0) ELSE (IF bc = 1 \/ col < G.c - 1 THEN G.d[s][3] ELSE 0)]
Inner(G, bc) == SelectSeq(Bonds(G, bc), LAMBDA x : x > 0)
MaxOf(S) == CHOOSE m \in S : \A x \in S : x <= m
MinOf(S) == CHOOSE m \in S : \A x \in S : m <= x
Range(q) == {q[i] : i \in 1..Len(q)}
(* ---- files *)
NoDir == [kind |-> "none", g |-> 0, bc |-> 0, p |-> 0, t |-> <<>>]
Written(a) == [kind |-> "meta", g |-> a.g, bc |-> a.bc, p |-> a.p, t |-> a.t]
Released(a) == [a EXCEPT !.t = [i \in 1..Len(a.t) |-> <<0>>]]
Sound(d) == \A i \in 1..Len(d.t) : d.t[i] \notin {<<1>>, <<2>>}
Loadable(d, a) == CASE d.kind \in {"meta", "nobc"} -> Sound(d) [] d.kind = "old" -> a.g = d.g /\ Sound(d) [] OTHER -> FALSE
Loaded(d, a) == [g |-> d.g, bc |-> (IF d.kind = "meta" THEN d.bc ELSE IF d.kind = "nobc" THEN 0 ELSE a.bc), p |-> d.p, t |-> d.t]
=============================================================================
