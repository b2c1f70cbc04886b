------------------------------ MODULE Plateau ------------------------------
(* The plateau learning-rate schedule as a state machine, with copies.
   Energies and threshold are integers in a common unit; the rate is kept as (decays) and projected by RateOf. *)
EXTENDS Integers, Sequences, FiniteSets, TLC
VARIABLES live      \* id -> object record
Obj0(factor, patience, thr, rate) ==
   [factor |-> factor, patience |-> patience, thr |-> thr, rate |-> rate,
    decays |-> 0, cnt |-> 0, has |-> FALSE, best |-> 0]
Improves(o, e) == ~o.has \/ e < o.best - o.thr
After(o, e) ==
   IF Improves(o, e) THEN [o EXCEPT !.has = TRUE, !.best = e, !.cnt = 0]
   ELSE IF o.cnt + 1 >= o.patience
        THEN [o EXCEPT !.decays = o.decays + 1, !.cnt = 0, !.best = e]
        ELSE [o EXCEPT !.cnt = o.cnt + 1]
Report(id, e) == live' = [live EXCEPT ![id] = After(live[id], e)]
Copy(id, to) == live' = (to :> live[id]) @@ live
Drop(id) == live' = [x \in DOMAIN live \ {id} |-> live[x]]
=============================================================================
