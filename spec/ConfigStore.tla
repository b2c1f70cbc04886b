---------------------------- MODULE ConfigStore ----------------------------
(* Lattice configurations, their files and their transfer between ranks.
   A configuration is [r, c, v] (v row-major); a file is [tok, side]: the tokens of the data file (-1: not a number) and the
   shape side-car (<<>> none, <<-1>> malformed, <<r, c>>); NoFile if there is no data file. *)
EXTENDS Integers, Sequences, FiniteSets
VARIABLES obj, file, ret
NoFile == [tok |-> <<-9>>, side |-> <<>>]
Shape(o) == <<o.r, o.c>>
N(o) == o.r * o.c
Fits(o, f) == f.side = <<>> \/ f.side = Shape(o)
Readable(o, f) == f.tok # <<-9>> /\ Len(f.tok) >= N(o) /\ \A i \in 1..N(o) : f.tok[i] >= 0
Dump(k, f) == /\ ret' = "ok" /\ file' = [file EXCEPT ![f] = [tok |-> obj[k].v, side |-> Shape(obj[k])]] /\ UNCHANGED obj
DumpFails(k) == ret' = "threw" /\ UNCHANGED <<obj, file>>
Load(k, f, seen) == \* seen: contents afterwards, free only when the data turn out unreadable half-way
  /\ UNCHANGED file
  /\ IF Fits(obj[k], file[f]) /\ Readable(obj[k], file[f])
     THEN ret' = "ok" /\ obj' = [obj EXCEPT ![k].v = SubSeq(file[f].tok, 1, N(obj[k]))]
     ELSE /\ ret' = "no"
          /\ IF file[f].tok = <<-9>> \/ ~Fits(obj[k], file[f]) THEN UNCHANGED obj ELSE obj' = [obj EXCEPT ![k].v = seen]
Count(v, s) == Cardinality({i \in 1..Len(v) : v[i] = s})
RECURSIVE Tot(_, _)
Tot(q, i) == IF i = 0 THEN 0 ELSE q[i] + Tot(q, i - 1)
(* occupation occ: sequence of <<state, how many>> *)
Fill(k, occ, seen) ==
  /\ UNCHANGED file
  /\ IF Tot([i \in 1..Len(occ) |-> occ[i][2]], Len(occ)) # N(obj[k]) THEN ret' = "threw" /\ UNCHANGED obj
     ELSE /\ ret' = "ok" /\ Len(seen) = N(obj[k]) /\ \A i \in 1..Len(occ) : Count(seen, occ[i][1]) = occ[i][2]
          /\ obj' = [obj EXCEPT ![k].v = seen]
RandomDim(k, d, seen) == /\ UNCHANGED file /\ ret' = "ok" /\ Len(seen) = N(obj[k]) /\ (\A i \in 1..Len(seen) : seen[i] \in 0..(d - 1)) /\ obj' = [obj EXCEPT ![k].v = seen]
Set(k, i, x) == ret' = "ok" /\ obj' = [obj EXCEPT ![k].v[i] = x] /\ UNCHANGED file
Copy(k, q) == ret' = "ok" /\ obj' = [obj EXCEPT ![k] = obj[q]] /\ UNCHANGED file
Hurt(f, x) == ret' = "ok" /\ file' = [file EXCEPT ![f] = x] /\ UNCHANGED obj
=============================================================================
