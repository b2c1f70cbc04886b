----------------------------- MODULE DirUtilMC -----------------------------
(* The design: P creators of chains to depth Tgt[p] and environment processes, all interleavings. Each creator:
   test target is a directory; mkdir every missing prefix; report whether the target is a directory now. *)
EXTENDS DirUtil
CONSTANTS P, RACY
VARIABLES k, pc, at, tgt, ret, envn
vars == <<k, pc, at, tgt, ret, envn>>
Init == /\ k \in {q \in [Depths -> 0..2] : Wf(q)} /\ tgt \in [1..P -> Depths]
        /\ pc = [p \in 1..P |-> "test"] /\ at = [p \in 1..P |-> 1] /\ ret = [p \in 1..P |-> FALSE] /\ envn = 0
Test(p) == /\ pc[p] = "test"
           /\ IF k[tgt[p]] = 1 THEN pc' = [pc EXCEPT ![p] = "done"] /\ ret' = [ret EXCEPT ![p] = TRUE]
              ELSE pc' = [pc EXCEPT ![p] = "mk"] /\ UNCHANGED ret
           /\ UNCHANGED <<k, at, tgt, envn>>
(* RACY: report "I created the last level" instead of "it exists" (the behaviour before the repair) *)
Mk(p) == /\ pc[p] = "mk" /\ k' = MkDir(k, at[p]) /\ UNCHANGED <<tgt, envn>>
         /\ IF k'[at[p]] # 1 THEN pc' = [pc EXCEPT ![p] = "done"] /\ UNCHANGED <<at, ret>>
            ELSE IF at[p] = tgt[p] THEN /\ pc' = [pc EXCEPT ![p] = "fin"] /\ UNCHANGED at
                                        /\ ret' = IF RACY THEN [ret EXCEPT ![p] = k[at[p]] = 0] ELSE ret
                 ELSE at' = [at EXCEPT ![p] = @ + 1] /\ UNCHANGED <<pc, ret>>
Fin(p) == /\ pc[p] = "fin" /\ pc' = [pc EXCEPT ![p] = "done"]
          /\ ret' = (IF RACY THEN ret ELSE [ret EXCEPT ![p] = k[tgt[p]] = 1]) /\ UNCHANGED <<k, at, tgt, envn>>
Env == /\ envn < 2 /\ envn' = envn + 1 /\ \E d \in Depths : k' = MkFile(k, d) /\ UNCHANGED <<pc, at, tgt, ret>>
Next == Env \/ \E p \in 1..P : Test(p) \/ Mk(p) \/ Fin(p)
Spec == Init /\ [][Next]_vars /\ WF_vars(\E p \in 1..P : Test(p) \/ Mk(p) \/ Fin(p))
Truthful == \A p \in 1..P : pc[p] = "done" => (ret[p] = (k[tgt[p]] = 1))
NothingLost == [][\A d \in Depths : k[d] # 0 => k'[d] = k[d]]_vars
AllReturn == <>(\A p \in 1..P : pc[p] = "done")
=============================================================================
