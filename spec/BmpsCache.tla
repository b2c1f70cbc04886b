----------------------------- MODULE BmpsCache -----------------------------
(* The boundary cache of the row/column contractor.  Four stacks, one per side of the lattice; layer k of a stack stands for the
   first k lines counted from that side, and remembers which contents of those lines it was built from.  Changing a site must
   drop every layer that contains it; growing a stack adds one line; moving the window drops one layer and grows the opposite
   stack. A query about a line uses the layer before it and the layer after it. *)
EXTENDS Integers, Sequences
CONSTANTS R, C, K \* lattice, number of site changes
Sides == {"up", "down", "left", "right"}
Vert(p) == p \in {"up", "down"}
Lines(p) == IF Vert(p) THEN R ELSE C
Opp(p) == CASE p = "up" -> "down" [] p = "down" -> "up" [] p = "left" -> "right" [] p = "right" -> "left"
VARIABLES rowv, colv, st, n \* how often a row / a column was changed; the stacks
vars == <<rowv, colv, st, n>>
Version(p, k) == LET len == Lines(p) i == IF p \in {"up", "left"} THEN k - 1 ELSE len - k IN IF Vert(p) THEN rowv[i] ELSE colv[i]   \* k-th line from side p
Fresh(p, k) == [j \in 1..k |-> Version(p, j)]
Init == rowv = [i \in 0..(R - 1) |-> 0] /\ colv = [i \in 0..(C - 1) |-> 0] /\ st = [p \in Sides |-> <<<<>>>>] /\ n = 0
Grow(p) == /\ Len(st[p]) < Lines(p) + 1
           /\ st' = [st EXCEPT ![p] = Append(@, Append(@[Len(@)], Version(p, Len(@))))] /\ UNCHANGED <<rowv, colv, n>>
Keep(p, r, c) == LET i == IF Vert(p) THEN r ELSE c len == Lines(p) IN IF p \in {"up", "left"} THEN i + 1 ELSE len - i \* layers not containing the site
Change(r, c) == /\ n < K /\ n' = n + 1 /\ rowv' = [rowv EXCEPT ![r] = @ + 1] /\ colv' = [colv EXCEPT ![c] = @ + 1]
                /\ st' = [p \in Sides |-> IF Len(st[p]) > Keep(p, r, c) THEN SubSeq(st[p], 1, Keep(p, r, c)) ELSE st[p]]
Approach(p) == \* all layers of the opposite side, only the trivial one of side p
  /\ st' = [st EXCEPT ![p] = <<<<>>>>, ![Opp(p)] = [k \in 1..Lines(p) |-> IF k <= Len(@) THEN @[k] ELSE Fresh(Opp(p), k - 1)]] /\ UNCHANGED <<rowv, colv, n>>
Shift(p) == \* move the window one line toward side p
  /\ Len(st[p]) > 1 /\ Len(st[Opp(p)]) < Lines(p)
  /\ st' = [st EXCEPT ![p] = SubSeq(@, 1, Len(@) - 1), ![Opp(p)] = Append(@, Append(@[Len(@)], Version(Opp(p), Len(@))))] /\ UNCHANGED <<rowv, colv, n>>
Next == \/ \E p \in Sides : Grow(p) \/ Approach(p) \/ Shift(p)
        \/ \E r \in 0..(R - 1), c \in 0..(C - 1) : Change(r, c)
Spec == Init /\ [][Next]_vars
NoStale == \A p \in Sides : \A k \in 1..Len(st[p]) : st[p][k] = Fresh(p, k - 1)
NeverEmpty == \A p \in Sides : Len(st[p]) >= 1 /\ Len(st[p]) <= Lines(p) + 1
=============================================================================
