----------------------------- MODULE PlateauMC -----------------------------
(* Exhaustive bounded exploration and scenario generation: every report/copy sequence up to K over two ids. *)
EXTENDS Plateau, Json, IOUtils, CSV
CONSTANTS K, Energies, Patiences, Thrs, EMIT
VARIABLES hist, runlen, last
mvars == <<live, hist, runlen, last>>
P == live[1]
Init == /\ \E p \in Patiences, t \in Thrs : live = (1 :> Obj0(2, p, t, 1))
        /\ hist = << >> /\ runlen = 0 /\ last = 0
Rep(id, e) == /\ Report(id, e)
              /\ hist' = Append(hist, <<"q", id, e>>)
              /\ runlen' = IF id # 1 THEN runlen ELSE IF Improves(live[1], e) \/ After(live[1], e).decays > live[1].decays THEN 0 ELSE runlen + 1
              /\ last' = IF id = 1 THEN e ELSE last
Next == /\ Len(hist) < K
        /\ \/ \E id \in DOMAIN live, e \in Energies : Rep(id, e)
           \/ 2 \notin DOMAIN live /\ Copy(1, 2) /\ hist' = Append(hist, <<"clone", 1, 2>>) /\ UNCHANGED <<runlen, last>>
Spec == Init /\ [][Next]_mvars
(* properties *)
CntBelowPatience == \A i \in DOMAIN live : live[i].cnt < live[i].patience \/ live[i].cnt = 0
CounterIsRun == live[1].cnt = runlen
DecaysOnlyByOne == [][ \A i \in DOMAIN live : live'[i].decays \in {live[i].decays, live[i].decays + 1} ]_mvars
DecayNeedsPatience == [][ \A i \in DOMAIN live : live'[i].decays > live[i].decays => live[i].cnt + 1 >= live[i].patience ]_mvars
Independent == [][ \A i, j \in DOMAIN live : i # j => (live'[i] = live[i] \/ live'[j] = live[j]) ]_mvars
Emit == (EMIT /\ Len(hist) = K) =>
          CSVWrite("%1$s", <<ToJson([patience |-> live[1].patience, thr |-> live[1].thr, ops |-> hist])>>, IOEnv.OUT)
=============================================================================
