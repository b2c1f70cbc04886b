----------------------------- MODULE MeasureMC -----------------------------
EXTENDS Measure
CONSTANTS NR, Sh, Wu, Sw, NK     \* ranks, samples per rank, warm-up sweeps, sweeps per sample, observables
VARIABLES pc, done, n, flag, sigat, vote, ord, got, res
vars == <<pc, done, n, flag, sigat, vote, ord, got, res>>
Rk == 1..NR
Perm == {p \in [1..NK -> 1..NK] : \A a, b \in 1..NK : a # b => p[a] # p[b]}
Val(r, j, k) == r * r + 3 * j * k - r * k
Init == /\ pc = [r \in Rk |-> "warm"] /\ done = [r \in Rk |-> 0] /\ n = [r \in Rk |-> 0] /\ flag = [r \in Rk |-> FALSE] /\ sigat = [r \in Rk |-> -1]
        /\ vote = [r \in Rk |-> -1] /\ ord \in [Rk -> Perm] /\ got = [r \in Rk |-> <<>>] /\ res = <<>>
Signal(r) == /\ \A q \in Rk : sigat[q] < 0 /\ pc[r] \in {"warm", "check", "wait", "sweep"} /\ flag' = [flag EXCEPT ![r] = TRUE]
             /\ sigat' = [sigat EXCEPT ![r] = IF pc[r] \in {"check", "wait"} THEN done[r] + (IF pc[r] = "wait" THEN 1 ELSE 0) ELSE IF pc[r] = "warm" THEN Min2(done[r] + 1, Wu) ELSE done[r] + 1] /\ UNCHANGED <<pc, done, n, vote, ord, got, res>>
Warm(r) == /\ pc[r] = "warm" /\ IF done[r] = Wu THEN pc' = [pc EXCEPT ![r] = "check"] /\ UNCHANGED done ELSE done' = [done EXCEPT ![r] = @ + 1] /\ UNCHANGED pc
           /\ UNCHANGED <<n, flag, sigat, vote, ord, got, res>>
Check(r) == /\ pc[r] = "check" /\ (IF n[r] = Sh THEN pc' = [pc EXCEPT ![r] = "gather"] /\ UNCHANGED vote
                                   ELSE pc' = [pc EXCEPT ![r] = "wait"] /\ vote' = [vote EXCEPT ![r] = IF flag[r] THEN 1 ELSE 0])
            /\ UNCHANGED <<done, n, flag, sigat, ord, got, res>>
Agree == /\ \A r \in Rk : pc[r] = "wait"
         /\ pc' = [r \in Rk |-> IF \E q \in Rk : vote[q] = 1 THEN "gather" ELSE "sweep"] /\ vote' = [r \in Rk |-> -1] /\ UNCHANGED <<done, n, flag, sigat, ord, got, res>>
Sweep(r) == /\ pc[r] = "sweep" /\ done' = [done EXCEPT ![r] = @ + 1]
            /\ IF (done[r] + 1 - Wu) % Sw = 0 THEN n' = [n EXCEPT ![r] = @ + 1] /\ pc' = [pc EXCEPT ![r] = "check"] ELSE UNCHANGED <<n, pc>>
            /\ UNCHANGED <<flag, sigat, vote, ord, got, res>>
(* a rank offers its next observable: in the agreed order, whatever order its own table has *)
Offer(r) == /\ pc[r] = "gather" /\ Len(got[r]) = Len(res) /\ Len(res) < NK
            /\ LET k == Len(res) + 1 IN got' = [got EXCEPT ![r] = Append(@, <<k, SumOver([j \in 1..n[r] |-> <<Val(r, j, k), 0>>], 1, n[r])[1]>>)]
            /\ UNCHANGED <<pc, done, n, flag, sigat, vote, ord, res>>
Combine == /\ \A r \in Rk : Len(got[r]) = Len(res) + 1
           /\ res' = Append(res, [keys |-> {got[r][Len(res) + 1][1] : r \in Rk}, sum |-> SumC([r \in Rk |-> got[r][Len(res) + 1]], 2, NR)]) /\ UNCHANGED <<pc, done, n, flag, sigat, vote, ord, got>>
Next == Agree \/ Combine \/ \E r \in Rk : Signal(r) \/ Warm(r) \/ Check(r) \/ Sweep(r) \/ Offer(r)
Spec == Init /\ [][Next]_vars /\ WF_vars(Agree \/ Combine \/ \E r \in Rk : Warm(r) \/ Check(r) \/ Sweep(r) \/ Offer(r))
SameCount == (\A r \in Rk : pc[r] = "gather") => \A a, b \in Rk : n[a] = n[b]
OneKey == \A i \in 1..Len(res) : res[i].keys = {i}
RECURSIVE All(_, _)
All(k, r) == IF r = 0 THEN 0 ELSE SumOver([j \in 1..n[r] |-> <<Val(r, j, k), 0>>], 1, n[r])[1] + All(k, r - 1)
Pooled == \A i \in 1..Len(res) : res[i].sum = All(i, NR)
AsPredicted == (\A r \in Rk : pc[r] = "gather") => \A r \in Rk : n[r] = Taken(Sh, Wu, Sw, IF \E k \in Rk : sigat[k] >= 0 THEN sigat[CHOOSE k \in Rk : sigat[k] >= 0] ELSE -1)
InStep == \A a, b \in Rk : n[a] <= n[b] + 1
Ends == <>(Len(res) = NK)
=============================================================================
