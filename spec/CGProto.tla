------------------------------ MODULE CGProto ------------------------------
(* Master/worker protocol of the distributed solver: "start" carries one multiplication; then "mult" any number of times,
   and "finish" from every exit. A multiplication: vector broadcast, every worker multiplies and sends, the master
   receives from ANY worker until it has all, in any order. *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS W, MaxMult       \* workers 1..W
VARIABLES mpc, mult, got, bc, wpc, seen, chan
vars == <<mpc, mult, got, bc, wpc, seen, chan>>
(* bc: broadcast log (collectives are ordered); seen[w]: how many broadcasts worker w consumed; chan[w]: results in flight *)
Init == mpc = "start" /\ mult = 0 /\ got = {} /\ bc = <<>> /\ wpc = [w \in 1..W |-> "instr"] /\ seen = [w \in 1..W |-> 0] /\ chan = [w \in 1..W |-> <<>>]
Say(x) == bc' = Append(bc, x)
MStart == mpc = "start" /\ Say("start") /\ mpc' = "vec" /\ UNCHANGED <<mult, got, wpc, seen, chan>>
MVec == mpc = "vec" /\ mult' = mult + 1 /\ Say(<<"vec", mult + 1>>) /\ mpc' = "gather" /\ got' = {} /\ UNCHANGED <<wpc, seen, chan>>
MRecv == /\ mpc = "gather"
         /\ IF Cardinality(got) = W THEN mpc' = "decide" /\ UNCHANGED <<got, chan>>
            ELSE \E w \in 1..W : Len(chan[w]) > 0 /\ got' = got \cup {<<w, Head(chan[w])>>} /\ chan' = [chan EXCEPT ![w] = Tail(@)] /\ UNCHANGED mpc
         /\ UNCHANGED <<mult, bc, wpc, seen>>
MMult == mpc = "decide" /\ mult < MaxMult /\ Say("mult") /\ mpc' = "vec" /\ UNCHANGED <<mult, got, wpc, seen, chan>>
MFinish == mpc = "decide" /\ Say("finish") /\ mpc' = "done" /\ UNCHANGED <<mult, got, wpc, seen, chan>>
Hear(w) == bc[seen[w] + 1]
WStep(w) ==
  /\ wpc[w] # "done"
  /\ CASE wpc[w] = "instr" -> /\ seen[w] < Len(bc) /\ seen' = [seen EXCEPT ![w] = @ + 1] /\ wpc' = [wpc EXCEPT ![w] = IF Hear(w) = "finish" THEN "done" ELSE "vec"] /\ UNCHANGED chan
       [] wpc[w] = "vec" -> /\ seen[w] < Len(bc) /\ seen' = [seen EXCEPT ![w] = @ + 1] /\ chan' = [chan EXCEPT ![w] = Append(@, Hear(w)[2])] /\ wpc' = [wpc EXCEPT ![w] = "instr"]
  /\ UNCHANGED <<mpc, mult, got, bc>>
Next == MStart \/ MVec \/ MRecv \/ MMult \/ MFinish \/ \E w \in 1..W : WStep(w)
Spec == Init /\ [][Next]_vars /\ WF_vars(Next) /\ WF_vars(MFinish)
OwnResult == mpc = "decide" => got = {<<w, mult>> : w \in 1..W}      \* one contribution of each worker, all of this multiplication
NoLeftOver == (mpc = "done" /\ \A w \in 1..W : wpc[w] = "done") => \A w \in 1..W : chan[w] = <<>>
AllDone == <>(mpc = "done" /\ \A w \in 1..W : wpc[w] = "done")
=============================================================================
