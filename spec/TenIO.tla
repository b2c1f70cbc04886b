------------------------------- MODULE TenIO -------------------------------
(* Element persistence: two containers of r*c slots, a small file system (-1 absent, -2 damaged, else the stored value). *)
EXTENDS Integers, Sequences, FiniteSets, TLC
VARIABLES mat, fs, ret       \* mat[m] = slots row-major (-1 = none), ret = last success report
Files == {"f1", "f2", "f3", "f4"}
FN(f) == CASE f = "f1" -> 1 [] f = "f2" -> 2 [] f = "f3" -> 3 [] f = "f4" -> 4
Writable(f) == f \in Files
SetV(m, k, v) == mat' = [mat EXCEPT ![m][k] = v] /\ ret' = TRUE /\ UNCHANGED fs
Drop(m, k) == mat' = [mat EXCEPT ![m][k] = -1] /\ ret' = TRUE /\ UNCHANGED fs
Damage(f) == fs' = [fs EXCEPT ![FN(f)] = IF @ = -1 THEN -1 ELSE -2] /\ ret' = TRUE /\ UNCHANGED mat
Remove(f) == fs' = [fs EXCEPT ![FN(f)] = -1] /\ ret' = TRUE /\ UNCHANGED mat
(* value written for an unallocated slot through the non-const overload: a default element, 0 *)
ValOf(v) == IF v = -1 THEN 0 ELSE v
DumpOk(m, k, f, release) ==
   /\ Writable(f) /\ fs' = [fs EXCEPT ![FN(f)] = ValOf(mat[m][k])]
   /\ mat' = [mat EXCEPT ![m][k] = IF release THEN -1 ELSE ValOf(@)] /\ ret' = TRUE
DumpFail(m, k, f) ==
   /\ ~Writable(f) /\ UNCHANGED fs /\ ret' = FALSE
   /\ \E v \in {mat[m][k], ValOf(mat[m][k])} : mat' = [mat EXCEPT ![m][k] = v]
Dump(m, k, f, release) == DumpOk(m, k, f, release) \/ DumpFail(m, k, f)
Readable(f) == f \in Files /\ fs[FN(f)] >= 0
LoadOk(m, k, f) == Readable(f) /\ mat' = [mat EXCEPT ![m][k] = fs[FN(f)]] /\ ret' = TRUE /\ UNCHANGED fs
LoadFail(m, k, f, left) == ~Readable(f) /\ ret' = FALSE /\ UNCHANGED fs /\ mat' = [mat EXCEPT ![m][k] = left]
=============================================================================
