---------------------------- MODULE OptimizerMC ----------------------------
(* All evaluation outcomes, all configurations: termination, bounded retries, bookkeeping; and the scenario generator. *)
EXTENDS Optimizer, TLC, Json, CSV, IOUtils
CONSTANTS Algs, MaxIter, Retries, Energies, Pats, Rolls, Sels, Kinds, Emit, ETols, Stops
VARIABLES p, s, hist, stopAt, g
vars == <<p, s, hist, stopAt, g>>
(* outcome kinds: which signals an evaluation raises *)
V(k, e, d) == [e |-> e, err |-> 1, g |-> Abs(d), d |-> d, s1 |-> k = "s1", s2 |-> k = "s2", s3 |-> k = "s3", s4 |-> k \in {"s4"}]
Params == [alg : Algs, maxIter : {MaxIter}, etol : ETols, gtol : {0}, pat : Pats, lrs : {<<4>>}, auto : BOOLEAN, retries : Retries, rollb : Rolls, ck : {0},
           selI : {IF x > 10 THEN x - 10 ELSE 0 : x \in Sels}, selN : {IF x > 0 /\ x < 10 THEN x ELSE 0 : x \in Sels}, phase : {2}, x0 : {0}, det : {0}]
Init == p \in Params /\ s = Init0(p) /\ hist = <<>> /\ stopAt \in Stops /\ g = <<>>
DirOf == 32 * (1 + Len(s.traj))
DoEval == /\ s.ph = "eval"
          /\ \E k \in Kinds, e \in Energies :
               /\ s' = Eval(p, s, V(k, e, DirOf)) /\ hist' = Append(hist, [k |-> k, e |-> e])
               /\ g' = IF Len(s'.traj) > Len(s.traj) THEN Append(g, [x |-> s.cur, d |-> DirOf]) ELSE g
DoTrial == /\ s.ph = "trial"
           /\ \E e \in Energies : /\ s' = Trial(p, s, V("ok", e, 0)) /\ hist' = Append(hist, [k |-> "ok", e |-> e])
                                  /\ g' = IF Len(s'.traj) > Len(s.traj) THEN Append(g, [x |-> s.cur, d |-> s.v.d]) ELSE g
DoLow == s.ph = "low" /\ s' = Low(p, s) /\ UNCHANGED <<hist, g>>
DoIter == s.ph = "iter" /\ s' = Iter(p, s) /\ UNCHANGED <<hist, g>>
DoAsk == s.ph = "ask" /\ s' = Ask(p, s, s.iter = stopAt) /\ UNCHANGED <<hist, g>>
DoEnd == /\ s.ph = "end" /\ s' = [s EXCEPT !.ph = "done"] /\ UNCHANGED <<hist, g>>
         /\ IF Emit THEN CSVWrite("%1$s", <<ToJson([p |-> p, hist |-> hist, stop |-> stopAt])>>, IOEnv.OUT) ELSE TRUE
Next == (DoEval \/ DoTrial \/ DoLow \/ DoIter \/ DoAsk \/ DoEnd) /\ UNCHANGED <<p, stopAt>>
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
View == <<p, s, stopAt, g>>
(* ---- properties *)
Terminates == <>(s.ph = "done")
Bounded == \* attempts per iteration: resamples, one rollback, resamples again, forced acceptance
   s.ph = "eval" => Cardinality({i \in 1..Len(s.log) : s.log[i].step = s.iter /\ s.log[i].act # "ACCEPT_WARN"}) <= 2 * (p.retries + 1)
TrajOk == s.ph \in {"low", "iter", "ask", "end"} /\ p.maxIter > 0 => Len(s.traj) = s.iter + 1
EvalTraj == s.ph = "eval" => Len(s.traj) = s.iter
LowMin == Len(s.traj) > 0 => /\ \A i \in 1..Len(s.traj) : s.low <= s.traj[i]
                            /\ \E i \in 1..Len(s.traj) : s.low = s.traj[i] /\ s.lowx = g[i].x /\ \A j \in 1..(i - 1) : s.traj[j] > s.low
AtMostOneRollbackPerIter == \A i, j \in 1..Len(s.log) : i # j /\ s.log[i].step = s.log[j].step => ~(s.log[i].act = "ROLLBACK" /\ s.log[j].act = "ROLLBACK")
(* without rollback the state is the initial one minus the accepted steps, whatever was rejected in between *)
RECURSIVE Sum(_, _)
Sum(q, k) == IF k = 0 THEN 0 ELSE q[k].d * s.lrt[k] + Sum(q, k - 1)
NoTrace == (~p.rollb /\ p.alg \in {"sgd", "sr"} /\ s.ph = "eval") => s.cur = p.x0 - Sum(g, Len(g))
(* every evaluated state is the initial one, the tail of an accepted step, or the state of an earlier accepted step *)
Known == s.ph = "eval" /\ Len(g) > 0 => \/ s.cur = g[Len(g)].x \/ \E i \in 1..Len(g) : s.cur = g[i].x - s.lrt[i] * g[i].d \/ p.alg \in {"mom", "nag"}
MonotoneSel == [][s.iter > 0 => s'.base <= s.base]_vars
NoRecNoReject == (~p.auto /\ ~p.rollb) => s.rej = 0
=============================================================================
