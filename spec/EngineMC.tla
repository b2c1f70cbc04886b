----------------------------- MODULE EngineMC -----------------------------
(* Every start of a few ranks over configurations of given weights, every warm-up and every evaluation after it. *)
EXTENDS Engine
CONSTANTS NR, A2s, Los, His, WU, Depth
VARIABLES ph, cfg, warm, m2, sweeps, state, lo, hi, k
vars == <<ph, cfg, warm, m2, sweeps, state, lo, hi, k>>
Id(x) == x                                             \* a configuration is known by its weight
Init == /\ ph = "new" /\ cfg \in [1..NR -> A2s] /\ warm \in [1..NR -> BOOLEAN] /\ m2 = 1 /\ sweeps = [r \in 1..NR |-> 0] /\ state = [r \in 1..NR |-> 0] /\ lo \in Los /\ hi \in His /\ k = 0
Start == /\ ph = "new" /\ UNCHANGED <<sweeps, state, lo, hi, k>>
         /\ \E on \in BOOLEAN : LET G == Good(cfg, Id, lo, hi) IN
              IF Starts(cfg, on, G) THEN ph' = "run" /\ cfg' = Chosen(cfg, G) /\ warm' = WarmAfter(warm, G) /\ m2' = Top(Chosen(cfg, G), Id) ELSE ph' = "aborted" /\ UNCHANGED <<cfg, warm, m2>>
WarmUp == /\ ph = "run" /\ k < Depth /\ k' = k + 1 /\ UNCHANGED <<state, lo, hi>>
          /\ \E c \in [1..NR -> A2s] : LET new == [r \in 1..NR |-> IF warm[r] \/ WU = 0 THEN cfg[r] ELSE c[r]] IN
               /\ sweeps' = [r \in 1..NR |-> sweeps[r] + (IF warm[r] THEN 0 ELSE WU)] /\ cfg' = new /\ warm' = [r \in 1..NR |-> TRUE]
               /\ IF \A r \in 1..NR : Legal(new[r], m2, lo, hi) THEN ph' = "run" /\ m2' = Top(new, Id) ELSE ph' = "aborted" /\ UNCHANGED m2
(* the master's state replaces everyone's; not rescaled *)
Evaluate == /\ ph = "run" /\ k < Depth /\ k' = k + 1 /\ UNCHANGED <<ph, warm, sweeps, lo, hi>> /\ state' = [r \in 1..NR |-> k + 1] /\ m2' = 1
            /\ \E c \in [1..NR -> A2s \ {0}] : cfg' = c
Next == Start \/ WarmUp \/ Evaluate
Spec == Init /\ [][Next]_vars
Running == ph = "run" /\ k = 0
StartsLegal == Running => \A r \in 1..NR : Legal(cfg[r], 1, lo, hi)
LargestIsOne == Running => (m2 > 0 /\ \A r \in 1..NR : cfg[r] <= m2 /\ \E q \in 1..NR : cfg[q] = m2)
OneState == \A r, q \in 1..NR : state[r] = state[q]
WarmOnce == \A r \in 1..NR : sweeps[r] \in {0, WU}
StaysWarm == [][ph = "run" => \A r \in 1..NR : warm[r] => warm'[r]]_vars
Borrowed == [][(ph = "new" /\ ph' = "run") => \A r \in 1..NR : (cfg'[r] = cfg[r] \/ (~warm'[r] /\ \E q \in 1..NR : cfg'[r] = cfg[q] /\ Legal(cfg[q], 1, lo, hi)))]_vars
=============================================================================
