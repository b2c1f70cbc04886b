--------------------------- MODULE SimpleUpdateMC ---------------------------
(* The sweep loop explored over all histories of a small palette of sweeps, and the coverings of the lattice by the executors' terms. *)
EXTENDS SimpleUpdate
CONSTANTS K, Pat, MinS, R, C, BC
VARIABLES hist, streak, stopped
vars == <<hist, streak, stopped>>
Cfg == <<1, 1, 2, Pat, MinS>>
Palette == {[e0 |-> x, lam |-> w] : x \in {-20, -18, 0, 1}, w \in {<<<<8>>, <<3, 4>>>>, <<<<8>>, <<4, 4>>>>, <<<<16>>, <<3, 4>>>>, <<<<8, 1>>, <<3, 4>>>>}}
Init == hist = <<>> /\ streak = 0 /\ stopped = FALSE
Next == /\ Len(hist) < K /\ ~stopped
        /\ \E s \in Palette : /\ hist' = Append(hist, s)
                              /\ \E ok \in Pass(Cfg, hist', Len(hist')) : streak' = (IF ok THEN streak + 1 ELSE 0)
                              /\ stopped' = (streak' >= Pat)
Spec == Init /\ [][Next]_vars
(* it stops at the first sweep that ends Pat successive converged ones, none before the minimum, and never otherwise *)
Good(k) == k >= MinS /\ k > 1 /\ TRUE \in Pass(Cfg, hist, k)
Window(k) == k >= Pat /\ \A j \in (k - Pat + 1)..k : Good(j)
Sound == stopped => Window(Len(hist)) /\ Len(hist) >= MinS + Pat - 1
Prompt == \A k \in 1..(Len(hist) - 1) : ~Window(k) \/ \E j \in (k - Pat + 1)..k : Pass(Cfg, hist, j) = BOOLEAN
Complete == Window(Len(hist)) /\ ~stopped => \E j \in (Len(hist) - Pat + 1)..Len(hist) : Pass(Cfg, hist, j) = BOOLEAN
Agrees == stopped => <<Len(hist), TRUE>> \in Runs(Cfg, hist, 0, 0)
(* a jump in energy, a changed bond dimension or a large drift restarts the count *)
Restarts == [][Len(hist') > 1 /\ (LET a == hist'[Len(hist') - 1] b == hist'[Len(hist')] IN ~SameDims(a.lam, b.lam) \/ Abs(a.e0 - b.e0) > 3) => streak' = 0]_vars
(* ---- coverings *)
G == [r |-> R, c |-> C, bc |-> BC]
Pair == <<0, -1, -1, -3>>
TriT == [k \in 1..8 |-> LET a == (k - 1) \div 4 b == ((k - 1) \div 2) % 2 d == (k - 1) % 2 IN Pair[2 * a + b + 1] + Pair[2 * b + d + 1] + Pair[2 * a + d + 1]]
Confs == {Config(2, R * C, k) : k \in 0..(Pow(2, R * C) - 1)}
Halves == BC = 0 => \A c \in Confs : LET t == SumOver(HalfA(G, Pair, TriT), 2, c) IN
  /\ t = SumOver(HalfB(G, Pair, TriT), 2, c)
  /\ t = SumOver(Bonds2(G, Pair, <<>>, <<>>), 2, c) + SumOver([k \in 1..((R - 1) * (C - 1)) |-> LET i == (k - 1) \div (C - 1) j == (k - 1) % (C - 1) IN <<Pair, <<Id(G, i, j + 1), Id(G, i + 1, j)>>>>], 2, c)
SetOf(s) == {s[i] : i \in 1..Len(s)}
OnceEach == LET b == Bonds2(G, Pair, <<>>, <<>>) \o Diagonals(G, Pair) IN \A i \in 1..Len(b) : /\ Cardinality(SetOf(b[i][2])) = 2
              /\ (BC = 0 => \A j \in 1..Len(b) : i # j => SetOf(b[i][2]) # SetOf(b[j][2]))
=============================================================================
