----------------------------- MODULE SamplerMC -----------------------------
(* Every bond step of the exchange sweep satisfies detailed balance and so leaves the weights stationary, whatever the weights;
   it keeps the sector; no positive-probability move enters a zero-weight configuration; and every sector is connected by bonds. *)
EXTENDS Sampler
CONSTANTS R, C, P, B, Start
VARIABLES w
S == Sector("ex", P, Start)
StartSeq == <<0, 1, 0, 1>>
StartTri == <<0, 1, 2>>
Init == w \in [S -> 1..B]
Spec == Init /\ [][UNCHANGED w]_w
pi == TLCEval([a \in DOMAIN w |-> 12 * w[a]])
Detailed == \A i \in 1..Len(Bonds(R, C)), a \in S : LET b == Swap(a, Bonds(R, C)[i]) IN Flow(w, pi, a, b) = Flow(w, pi, b, a)
Stationary == Chain(w, pi, Bonds(R, C)) = pi
Conserves == \A i \in 1..Len(Bonds(R, C)), a \in S : Swap(a, Bonds(R, C)[i]) \in S
RECURSIVE Reach(_)
Reach(X) == LET Y == X \cup {Swap(a, Bonds(R, C)[i]) : a \in X, i \in 1..Len(Bonds(R, C))} IN IF Y = X THEN X ELSE Reach(Y)
Connected == Reach({Start}) = S
=============================================================================
