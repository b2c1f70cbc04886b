------------------------------ MODULE DirUtil ------------------------------
(* Directory creation on a chain x, x/y, x/y/z (depths 1..3) shared with other processes that create things.
   k[d] = kind at depth d: 0 nothing, 1 directory, 2 plain file. *)
EXTENDS Integers, Sequences, FiniteSets, TLC
Depths == 1..3
Wf(k) == \A d \in Depths : d > 1 => (k[d] # 0 => k[d - 1] = 1)
(* what one mkdir at depth d does to the tree *)
MkDir(k, d) == IF k[d] = 0 /\ (d = 1 \/ k[d - 1] = 1) THEN [k EXCEPT ![d] = 1] ELSE k
RECURSIVE MkAll(_, _, _)
MkAll(k, d, n) == IF d > n THEN k ELSE MkAll(MkDir(k, d), d + 1, n)
MkFile(k, d) == IF k[d] = 0 /\ (d = 1 \/ k[d - 1] = 1) THEN [k EXCEPT ![d] = 2] ELSE k
EnvAct(k, a) == CASE a = "-" -> k
                  [] a = "d1" -> MkAll(k, 1, 1) [] a = "d2" -> MkAll(k, 1, 2) [] a = "d3" -> MkAll(k, 1, 3)
                  [] a = "f1" -> MkFile(k, 1) [] a = "f2" -> MkFile(k, 2) [] a = "f3" -> MkFile(k, 3)
(* everything a creator of depth n may have left behind when it returns, other processes' action a included:
   it only ever adds directories on the way to its target *)
Left(k0, a, n, k1) ==
   /\ Wf(k1)
   /\ \A d \in Depths : k0[d] # 0 => k1[d] = k0[d]                       \* nothing removed or changed
   /\ \E i \in 0..n : LET m == MkAll(EnvAct(MkAll(k0, 1, i), a), 1, n)    \* env act after i own steps, then possibly stopping early
                      IN \E s \in 0..n : k1 = MkAll(EnvAct(MkAll(k0, 1, i), a), 1, s)
=============================================================================
