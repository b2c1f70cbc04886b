------------------------------- MODULE ObsMat -------------------------------
(* The lattice observable table: r x c cells, addressed (row, col) or by site, flat view row-major. *)
EXTENDS Integers, Sequences, FiniteSets, TLC
VARIABLES t            \* t[id] = [r, c, cell (function 1..r*c)]
Mk(r, c, v) == [r |-> r, c |-> c, cell |-> [n \in 1..(r * c) |-> v]]
In(m, i, j) == i >= 0 /\ j >= 0 /\ i < m.r /\ j < m.c
Ix(m, i, j) == i * m.c + j + 1
Resize(k, r, c, v) == t' = [t EXCEPT ![k] = Mk(r, c, v)]
Put(k, i, j, v) == t' = IF In(t[k], i, j) THEN [t EXCEPT ![k].cell[Ix(t[k], i, j)] = v] ELSE t
AddTo(k, i, j, v) == t' = IF In(t[k], i, j) THEN [t EXCEPT ![k].cell[Ix(t[k], i, j)] = @ + v] ELSE t
CopyT(k, q) == t' = [t EXCEPT ![q] = t[k]]
ExtractT(k, r, c, v) == t' = [t EXCEPT ![k] = Mk(r, c, v)]       \* contents handed out; the table is then re-shaped
=============================================================================
