----------------------------- MODULE Optimizer -----------------------------
(* The iterative optimizer as a transition system on whole evaluations: evaluate -> recovery decision -> step selection
   -> update -> accept -> bookkeeping -> stop/checkpoint.  One-parameter state, exact arithmetic:
   state in units of 1/1024, learning rates in 1/16, directions in 1/64 (so state' = state - lr*dir is exact).
   p is the run's configuration, s the optimizer's state, v the outcome of one evaluation:
     [e, err, g, d, s1, s2, s3, s4]  energy, error bar, |gradient|, signed update direction, raised signals.          *)
EXTENDS Integers, Sequences, FiniteSets
Abs(x) == IF x < 0 THEN -x ELSE x
Half(x) == x \div 2      \* only used where exact
LrAt(p, i) == p.lrs[IF i + 1 <= Len(p.lrs) THEN i + 1 ELSE Len(p.lrs)]
Init0(p) ==
  [ph |-> IF p.maxIter = 0 THEN "end" ELSE "eval", iter |-> 0, att |-> 0, hasPrev |-> FALSE, cur |-> p.x0, prev |-> 0, vel |-> 0, base |-> LrAt(p, 0),
   trials |-> <<>>, v |-> [e |-> 0], lr |-> 0, newx |-> 0, newvel |-> 0, traj |-> <<>>, errs |-> <<>>, gns |-> <<>>, lrt |-> <<>>, selt |-> <<>>,
   hasLow |-> FALSE, low |-> 0, lowx |-> p.x0, noImp |-> 0, prevE |-> 0, conv |-> FALSE, log |-> <<>>, cks |-> <<>>, rej |-> 0, tot |-> 0, refused |-> FALSE]
HasSel(p) == p.selI > 0 \/ p.selN > 0
SelInit(p, s) == p.selI > 0 /\ s.iter = 0
SelPer(p, s) == p.selN > 0 /\ s.iter > 0 /\ s.iter % p.selN = 0
Triggered(p, s) == SelInit(p, s) \/ SelPer(p, s)
(* candidate learning rates of the step selector, in order *)
Cands(p, s) == IF SelInit(p, s) THEN [k \in 1..p.selI |-> k * s.base] ELSE <<s.base, Half(s.base)>>

(* ------------------------------------------------------------------ update rules (SGD family, natural gradient) *)
NewVel(p, s) == Half(s.vel) + s.v.d
Dir(p, s) == CASE p.alg = "mom" -> NewVel(p, s)
               [] p.alg = "nag" -> Half(NewVel(p, s)) + s.v.d
               [] OTHER -> s.v.d
XWith(p, s, lr) == s.cur - lr * Dir(p, s)

(* ------------------------------------------------------------------ recovery *)
Logged(s, sig, act) == [s EXCEPT !.log = Append(@, [step |-> s.iter, att |-> s.att, sig |-> sig, act |-> act])]
Resample(s, sig) == [Logged(s, sig, "RESAMPLE") EXCEPT !.att = @ + 1, !.rej = @ + 1, !.ph = "eval", !.trials = <<>>]
Rollback(s, sig) == [Logged(s, sig, "ROLLBACK") EXCEPT !.att = 0, !.rej = @ + 1, !.cur = s.prev, !.hasPrev = FALSE, !.ph = "eval", !.trials = <<>>]
Warn(s, sig) == Logged(s, sig, "ACCEPT_WARN")
Decide(p, s, sig) == CASE s.att < p.retries -> Resample(s, sig)
                       [] s.att >= p.retries /\ p.rollb /\ s.hasPrev -> Rollback(s, sig)
                       [] OTHER -> Warn(s, sig)
Rejected(s, t) == t.rej > s.rej

(* ------------------------------------------------------------------ acceptance *)
NoLess(s) == ~(~s.hasLow \/ s.v.e < s.low)
StopNow(p, s) == /\ s.iter > 0
                 /\ \/ s.v.g < p.gtol
                    \/ Abs(s.v.e - s.prevE) < p.etol
                    \/ s.noImp >= p.pat
Settle(p, s) == \* after the lowest-state bookkeeping
  IF StopNow(p, s) THEN [s EXCEPT !.conv = TRUE, !.ph = "end"]
  ELSE [s EXCEPT !.prevE = s.v.e, !.prev = IF p.rollb THEN s.cur ELSE @, !.hasPrev = p.rollb, !.cur = s.newx, !.vel = s.newvel, !.ph = "iter"]
Accept(p, s0) ==
  LET s == [s0 EXCEPT !.traj = Append(@, s0.v.e), !.errs = Append(@, s0.v.err), !.gns = Append(@, s0.v.g), !.lrt = Append(@, s0.lr), !.selt = Append(@, Triggered(p, s0)), !.trials = <<>>]
  IN IF NoLess(s) THEN Settle(p, [s EXCEPT !.noImp = @ + 1])
     ELSE [s EXCEPT !.hasLow = TRUE, !.low = s.v.e, !.lowx = s.cur, !.noImp = 0, !.ph = "low"]
(* the update has been computed: late signals *)
Late(p, s) ==
  LET a == IF p.alg = "sr" /\ p.auto /\ s.iter > 0 /\ s.v.s3 THEN Decide(p, s, "S3") ELSE s IN
  IF Rejected(s, a) THEN a
  ELSE IF p.rollb /\ a.iter > 0 /\ a.v.s4
       THEN IF a.hasPrev THEN [Rollback(a, "S4") EXCEPT !.vel = a.newvel]   \* documented: accumulators keep the undone attempt
            ELSE Accept(p, Warn(a, "S4"))
       ELSE Accept(p, a)
Update(p, s, lr) == LET n == [s EXCEPT !.lr = lr, !.newx = XWith(p, s, lr), !.newvel = IF p.alg \in {"mom", "nag"} THEN NewVel(p, s) ELSE 0]
                    IN Late(p, n)
(* ------------------------------------------------------------------ transitions *)
Eval(p, s, v) == \* the main evaluation, at state s.cur
  LET n == [s EXCEPT !.v = v, !.tot = @ + 1]
      sig == IF v.s1 THEN "S1" ELSE "S2"
      a == IF p.auto /\ s.iter > 0 /\ (v.s1 \/ v.s2) THEN Decide(p, n, sig) ELSE n
  IN IF Rejected(n, a) THEN a
     ELSE IF Triggered(p, a) /\ p.det = 0 /\ v.err <= 0 THEN [a EXCEPT !.ph = "end", !.refused = TRUE]  \* no error bar to compare candidates with
     ELSE IF Triggered(p, a) THEN [a EXCEPT !.ph = "trial", !.trials = <<>>]
     ELSE Update(p, a, IF HasSel(p) THEN a.base ELSE LrAt(p, a.iter))
TrialX(p, s) == XWith(p, s, Cands(p, s)[Len(s.trials) + 1])
Pick(p, s, t) == \* t: the candidates' results
  IF SelInit(p, s) THEN LET i == CHOOSE i \in 1..Len(t) : \A j \in 1..Len(t) : t[i].e < t[j].e \/ (t[i].e = t[j].e /\ i <= j) IN Cands(p, s)[i]
  ELSE LET early == 4 * s.iter < p.phase * p.maxIter
           better == IF early THEN t[2].e < t[1].e ELSE t[1].e - t[2].e > (IF t[1].err > t[2].err THEN t[1].err ELSE t[2].err)
       IN IF better THEN Half(s.base) ELSE s.base
Trial(p, s, v) ==
  LET t == Append(s.trials, [e |-> v.e, err |-> v.err]) IN
  IF Len(t) < Len(Cands(p, s)) THEN [s EXCEPT !.trials = t, !.tot = @ + 1]
  ELSE LET b == Pick(p, s, t) IN Update(p, [s EXCEPT !.trials = t, !.base = b, !.tot = @ + 1], b)
Low(p, s) == Settle(p, s)
Iter(p, s) == [s EXCEPT !.ph = "ask"]
Ask(p, s, stop) ==
  IF stop THEN [s EXCEPT !.ph = "end"]
  ELSE LET c == IF p.ck > 0 /\ s.iter > 0 /\ s.iter % p.ck = 0 THEN [s EXCEPT !.cks = Append(@, [step |-> s.iter, x |-> s.cur])] ELSE s
       IN IF s.iter + 1 >= p.maxIter THEN [c EXCEPT !.ph = "end"]
          ELSE [c EXCEPT !.iter = @ + 1, !.att = 0, !.ph = "eval"]
Count(log, act) == Cardinality({i \in 1..Len(log) : log[i].act = act})
=============================================================================
