---------------------------- MODULE OptConfigMC ----------------------------
(* Every setter/build/copy/use sequence up to K over a small alphabet; the ghost `given` is the history of last values. *)
EXTENDS OptConfig, Json, IOUtils, CSV
CONSTANTS K, EMIT
VARIABLES b, live, given, hist
vars == <<b, live, given, hist>>
Cmds == {<<"maxit", <<"5">> >>, <<"etol", <<"0.5">> >>, <<"pat", <<"3">> >>, <<"lr", <<"0.2">> >>, <<"lrs", <<"0.3">> >>,
         <<"clipv", <<"1.5">> >>, <<"sgd", <<"0.5">> >>, <<"minsr", << >> >>, <<"nospike", << >> >>, <<"psel", <<"true">> >>}
Init == b = B0 /\ live = [x \in {} |-> 0] /\ given = [x \in {} |-> 0] /\ hist = << >>
H(op, a) == hist' = Append(hist, <<op, a>>)
DoSet(c) == /\ H(c[1], c[2]) /\ UNCHANGED live
            /\ IF Refused(b, c[1]) THEN UNCHANGED <<b, given>>
               ELSE b' = SetOp(b, c[1], c[2]) /\ given' = (c[1] :> c[2]) @@ given
Build(k) == /\ H("build", <<ToString(k)>>) /\ UNCHANGED <<b, given>>
            /\ IF Refused(b, "build") THEN UNCHANGED live ELSE live' = (k :> b.cfg) @@ live
CopyC(i, j) == H("copy", <<ToString(i), ToString(j)>>) /\ live' = (j :> live[i]) @@ live /\ UNCHANGED <<b, given>>
PumpC(i) == H("pump", <<ToString(i)>>) /\ live' = [live EXCEPT ![i] = Pump(live[i])] /\ UNCHANGED <<b, given>>
MutC(i) == H("mut", <<ToString(i)>>) /\ live' = [live EXCEPT ![i] = Mut(live[i])] /\ UNCHANGED <<b, given>>
Next == /\ Len(hist) < K
        /\ \/ \E c \in Cmds : DoSet(c)
           \/ Build(1)
           \/ \E i \in DOMAIN live : CopyC(i, 3 - i) \/ PumpC(i) \/ MutC(i)
Spec == Init /\ [][Next]_vars
LastGiven == /\ ("maxit" \in DOMAIN given => b.cfg.base[1] = given["maxit"][1]) /\ ("maxit" \notin DOMAIN given => b.cfg.base[1] = Base0[1])
             /\ ("pat" \in DOMAIN given => b.cfg.base[4] = given["pat"][1]) /\ ("pat" \notin DOMAIN given => b.cfg.base[4] = Base0[4])
             /\ b.cfg.base[3] = Base0[3]
             /\ ("lrs" \in DOMAIN given <=> b.cfg.sched # -1)
             /\ ("clipv" \notin DOMAIN given => b.cfg.clip[1] = "none")
BuildComplete == \A i \in DOMAIN live : b.hasbase /\ b.hasalgo
BuilderUntouched == b.cfg.sched \in {-1, 0}
OnlyOneChanges == [][ Cardinality({i \in DOMAIN live : live'[i] # live[i]}) <= 1 ]_vars
Emit == (EMIT /\ Len(hist) = K) => CSVWrite("%1$s", <<ToJson(hist)>>, IOEnv.OUT)
View == <<b, live, given, Len(hist)>>
=============================================================================
