----------------------------- MODULE OptConfig -----------------------------
(* Optimizer configuration: builder, ready-made configurations, copies. Values are strings (printed numbers).
   The schedule attached to a configuration is abstracted to the number of times it was asked (-1: none);
   it is a plateau schedule whose rate halves from the second question on, so sharing would be visible. *)
EXTENDS Integers, Sequences, FiniteSets, TLC
Defaults == [sgd |-> <<"0", "false", "0">>, adam |-> <<"0.9", "0.999", "1e-08", "0">>,
             adagrad |-> <<"1e-08", "0">>,
             sr |-> <<"100", "0.0001", "0", "20", "0.5", "0.001", "false", "0">>,
             lbfgs |-> <<"10", "1e-05", "1e-09", "20", "fixed", "0.0001", "0.9", "1e-08", "1", "1e-12", "true", "1000", "false", "0.2">>,
             minsr |-> <<"1e-12", "0", "true", "auto">>]
Fill(name, args) == args \o SubSeq(Defaults[name], Len(args) + 1, Len(Defaults[name]))
Base0 == <<"1000", "1e-10", "1e-30", "20", "0.01">>
Spike0 == <<"true", "2", "100", "10000000000", "10", "1", "false", "50", "10", "none">>
NoSpike == [Spike0 EXCEPT ![1] = "false"]
Cfg(base, sched, algo, args) ==
  [base |-> base, sched |-> sched, clip |-> <<"none", "none">>, isel |-> <<"false", "3", "false">>,
   psel |-> <<"false", "10", "0.3", "false">>, jsonl |-> "", algo |-> algo, args |-> args,
   ckpt |-> <<"0", "">>, spike |-> Spike0]
(* builder: the configuration so far, whether base settings / an algorithm were given *)
B0 == [hasbase |-> FALSE, hasalgo |-> FALSE, cfg |-> Cfg(Base0, -1, "sgd", Defaults.sgd)]
SetBase(b, i, v) == [b EXCEPT !.hasbase = TRUE, !.cfg.base[i] = v]
NeedsBase(op) == op \in {"clipv", "clipn", "psel", "isel"}
Algo(b, name, args) == [b EXCEPT !.hasalgo = TRUE, !.cfg.algo = name, !.cfg.args = Fill(name, args)]
Psel(a) == IF Len(a) = 1 THEN <<a[1], "10", "0.3", "false">> ELSE a
Isel(a) == IF Len(a) = 1 THEN <<a[1], "3", "false">> ELSE a
SetOp(b, op, a) ==
  CASE op = "maxit" -> SetBase(b, 1, a[1])
    [] op = "etol" -> SetBase(b, 2, a[1])
    [] op = "pat" -> SetBase(b, 4, a[1])
    [] op = "lr" -> SetBase(b, 5, a[1])
    [] op = "lrs" -> [SetBase(b, 5, a[1]) EXCEPT !.cfg.sched = 0]
    [] op = "clipv" -> [b EXCEPT !.cfg.clip[1] = a[1]]
    [] op = "clipn" -> [b EXCEPT !.cfg.clip[2] = a[1]]
    [] op = "psel" -> [b EXCEPT !.cfg.psel = Psel(a)]
    [] op = "isel" -> [b EXCEPT !.cfg.isel = Isel(a)]
    [] op = "ckpt" -> [b EXCEPT !.cfg.ckpt = <<a[1], IF a[2] = "none" THEN "" ELSE a[2]>>]
    [] op = "spike" -> [b EXCEPT !.cfg.spike = a]
    [] op = "nospike" -> [b EXCEPT !.cfg.spike = NoSpike]
    [] op \in DOMAIN Defaults -> Algo(b, op, a)
SetOps == {"maxit", "etol", "pat", "lr", "lrs", "clipv", "clipn", "psel", "isel", "ckpt", "spike", "nospike"} \cup DOMAIN Defaults
Refused(b, op) == (NeedsBase(op) /\ ~b.hasbase) \/ (op = "build" /\ ~(b.hasbase /\ b.hasalgo))
Mut(c) == [c EXCEPT !.base[1] = "777", !.clip = <<"0.125", "0.25">>, !.jsonl = "mutlog", !.ckpt[2] = "mutpath",
                    !.spike[9] = "3.5", !.psel[2] = "99", !.isel[2] = "98"]
Pump(c) == IF c.sched >= 0 THEN [c EXCEPT !.sched = c.sched + 1] ELSE c
FirstOrder(c) == c.algo \in {"sgd", "adam", "adagrad"}
CkptOn(c) == c.ckpt[1] # "0" /\ c.ckpt[2] # ""

(* ready-made configurations; x = the arguments the caller gave *)
Simple(x, lr) == <<x[1], "0", "0", x[1], lr>>
Adv(x, lr) == <<x[1], x[2], x[3], x[4], lr>>
SrArg == Fill("sr", <<"55", "0.01">>)
LbE == Fill("lbfgs", <<"7", "0.5", "0.25", "9", "wolfe">>)
Factory(f, x) ==
  LET n == Len(x) IN
  CASE f = "sr" -> Cfg(Simple(x, IF n = 1 THEN "0.1" ELSE x[2]), -1, "sr", SrArg)
    [] f = "sra" -> Cfg(Adv(x, IF n = 4 THEN "0.1" ELSE x[5]), IF n = 4 THEN -1 ELSE 0, "sr", SrArg)
    [] f = "adam" -> Cfg(Simple(x, IF n = 1 THEN "0.001" ELSE x[2]), -1, "adam", Fill("adam", SubSeq(x, 3, n)))
    [] f = "adama" -> Cfg(Adv(x, IF n = 4 THEN "0.001" ELSE x[5]), IF n = 4 THEN -1 ELSE 0, "adam", Fill("adam", SubSeq(x, 6, n)))
    [] f = "adagrad" -> Cfg(Simple(x, IF n = 1 THEN "0.01" ELSE x[2]), -1, "adagrad", Fill("adagrad", SubSeq(x, 3, n)))
    [] f = "adagrada" -> Cfg(Adv(x, IF n = 4 THEN "0.01" ELSE x[5]), -1, "adagrad", Fill("adagrad", SubSeq(x, 6, n)))
    [] f = "lbfgs" -> Cfg(Simple(x, IF n = 1 THEN "1" ELSE x[2]), -1, "lbfgs", Fill("lbfgs", SubSeq(x, 3, n)))
    [] f = "lbfgsa" -> Cfg(Adv(x, IF n = 4 THEN "1" ELSE x[5]), IF n = 4 THEN -1 ELSE 0, "lbfgs", Fill("lbfgs", SubSeq(x, 6, n)))
    [] f = "lbfgse" -> Cfg(Adv(x, x[5]), IF n = 5 THEN -1 ELSE 0, "lbfgs", LbE)
    [] f = "decay" -> Cfg(Simple(x, IF n = 1 THEN "0.01" ELSE x[2]), -1, "sgd", Defaults.sgd)
    [] f = "decaya" -> Cfg(Adv(x, IF n = 4 THEN "0.01" ELSE x[5]), -1, "sgd", Defaults.sgd)
=============================================================================
