------------------------------- MODULE DuoMat -------------------------------
(* Owning 2D containers. mats: id -> [r, c, cell], cell = sequence of length r*c in row-major order, -1 = no element.
   Ownership is by construction: every non-null cell of every live container is one separately owned element. *)
EXTENDS Integers, Sequences, FiniteSets, TLC
VARIABLES mats
Nulls(n) == [k \in 1..n |-> -1]
Mat(r, c) == [r |-> r, c |-> c, cell |-> Nulls(r * c)]
Empty0 == Mat(0, 0)
Ix(m, i, j) == i * m.c + j + 1
Put(id, m) == mats' = (id :> m) @@ mats
Upd(id, i, j, v) == Put(id, [mats[id] EXCEPT !.cell[Ix(mats[id], i, j)] = v])
NewM(id, r, c) == Put(id, IF r = 0 THEN Empty0 ELSE Mat(r, c))
CopyM(s, d) == Put(d, mats[s])
(* a moved-from container holds no element; whether it keeps its shape is left open *)
MoveM(s, d) == \E left \in {Empty0, Mat(mats[s].r, mats[s].c)} : mats' = (d :> mats[s]) @@ (s :> left) @@ mats
SetE(id, i, j, v) == Upd(id, i, j, v)
AllocE(id, i, j) == Upd(id, i, j, 0)
DeallocE(id, i, j) == Upd(id, i, j, -1)
ClearM(id) == Put(id, Mat(mats[id].r, mats[id].c))
FillM(id, k) == Put(id, [mats[id] EXCEPT !.cell = [x \in DOMAIN mats[id].cell |->
                   (IF mats[id].cell[x] = -1 THEN 0 ELSE mats[id].cell[x]) + k + x - 1]])
DelM(id) == mats' = [x \in DOMAIN mats \ {id} |-> mats[x]]
Held(m) == Cardinality({k \in DOMAIN m.cell : m.cell[k] # -1})
RECURSIVE SumHeld(_, _)
SumHeld(f, S) == IF S = {} THEN 0 ELSE LET x == CHOOSE x \in S : TRUE IN Held(f[x]) + SumHeld(f, S \ {x})
LiveElems(f) == SumHeld(f, DOMAIN f)
EqM(a, b) == a.r = b.r /\ a.c = b.c /\ Held(a) = Len(a.cell) /\ Held(b) = Len(b.cell) /\ a.cell = b.cell
=============================================================================
