------------------------------ MODULE StopVote ------------------------------
(* Emergency stop: signals arrive at any rank at any time; at every check the ranks combine what they have seen.
   All ranks must leave the loop at the same check, which must be the first one at which some rank had seen a signal. *)
EXTENDS Integers, FiniteSets, Sequences
CONSTANTS R, Checks        \* ranks 1..R, at most Checks checks
VARIABLES flag, pc, k, in, decided
vars == <<flag, pc, k, in, decided>>
Init == flag = [r \in 1..R |-> FALSE] /\ pc = [r \in 1..R |-> "work"] /\ k = [r \in 1..R |-> 1] /\ in = [c \in 1..Checks |-> [r \in 1..R |-> 2]] /\ decided = [c \in 1..Checks |-> 2]
Signal(r) == pc[r] # "out" /\ flag' = [flag EXCEPT ![r] = TRUE] /\ UNCHANGED <<pc, k, in, decided>>
Offer(r) == \* contribute the local flag to check k[r]
  /\ pc[r] = "work" /\ k[r] <= Checks
  /\ in' = [in EXCEPT ![k[r]][r] = IF flag[r] THEN 1 ELSE 0] /\ pc' = [pc EXCEPT ![r] = "wait"] /\ UNCHANGED <<flag, k, decided>>
Combine(c) == /\ decided[c] = 2 /\ \A r \in 1..R : in[c][r] # 2
              /\ decided' = [decided EXCEPT ![c] = IF \E r \in 1..R : in[c][r] = 1 THEN 1 ELSE 0] /\ UNCHANGED <<flag, pc, k, in>>
Leave(r) == /\ pc[r] = "wait" /\ decided[k[r]] # 2
            /\ IF decided[k[r]] = 1 \/ k[r] = Checks THEN pc' = [pc EXCEPT ![r] = "out"] /\ UNCHANGED k
               ELSE pc' = [pc EXCEPT ![r] = "work"] /\ k' = [k EXCEPT ![r] = @ + 1]
            /\ UNCHANGED <<flag, in, decided>>
Next == \E r \in 1..R : Signal(r) \/ Offer(r) \/ Leave(r) \/ \E c \in 1..Checks : Combine(c)
Spec == Init /\ [][Next]_vars /\ \A r \in 1..R : WF_vars(Offer(r)) /\ WF_vars(Leave(r)) /\ WF_vars(\E c \in 1..Checks : Combine(c))
SameCheck == \A a, b \in 1..R : pc[a] = "out" /\ pc[b] = "out" => k[a] = k[b]
NoneBehind == \A a, b \in 1..R : pc[a] = "out" => k[b] = k[a]
Justified == \A r \in 1..R : pc[r] = "out" /\ decided[k[r]] = 1 => \E q \in 1..R : flag[q]
AllLeave == <>(\A r \in 1..R : pc[r] = "out")
Prompt == \* a signal seen before a rank's contribution stops everybody at that check
  \A c \in 1..Checks : (\E r \in 1..R : in[c][r] = 1) => \A q \in 1..R : k[q] <= c
=============================================================================
