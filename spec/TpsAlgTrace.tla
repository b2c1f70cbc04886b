---------------------------- MODULE TpsAlgTrace ----------------------------
EXTENDS TpsAlg, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, obj, dir, geo
e == Trace[l]
vars == <<l, obj, dir, geo>>
Abs(x) == IF x < 0 THEN -x ELSE x
Set(k, v) == obj' = [obj EXCEPT ![k] = v] /\ UNCHANGED dir
A == obj[e.a]
B == obj[e.b]
Seen == [i \in 1..Len(e.obj) |-> e.obj[i]]
TraceInit == l = 1 /\ obj = <<>> /\ dir = NoDir /\ geo = <<>>
(* fixed-point answers: norm * 1000 and entries * 1000 after rescaling one site *)
Close(x, y, t) == Abs(x - y) <= t
SiteVals(a, s) == SubSeq(a.t, (s - 1) * a.p + 1, s * a.p)
RECURSIVE Flat(_)
Flat(q) == IF q = <<>> THEN <<>> ELSE (IF Len(Head(q)) < 2 THEN <<>> ELSE Head(q)) \o Flat(Tail(q))
Normalized(a, s, n3, v3) == \* n3 = 1000 * norm, v3 = 1000 * entries
  LET f == Flat(SiteVals(a, s)) IN
  /\ n3 >= 0 /\ Close(n3 * n3, 1000000 * SiteSq(a, s), 3 * n3 + 3) /\ Len(v3) = Len(f)
  /\ \A i \in 1..Len(f) : Close(v3[i] * n3, 1000000 * f[i], n3 + Abs(v3[i]) + 2)
MaxSq(a, s) == LET f == Flat(SiteVals(a, s)) IN MaxOf({0} \cup {f[2 * i - 1] * f[2 * i - 1] + f[2 * i] * f[2 * i] : i \in 1..(Len(f) \div 2)})
Rescaled(a, s, aim, m3, v3) == \* m3 = 1000 * (largest magnitude / aim), v3 = 1000 * entries after
  LET f == Flat(SiteVals(a, s)) IN
  /\ m3 >= 0 /\ Close(m3 * aim * m3 * aim, 1000000 * MaxSq(a, s), 3 * aim * aim * m3 + 9) /\ Len(v3) = Len(f)
  /\ \A i \in 1..Len(f) : Close(v3[i] * m3, 1000000 * f[i], m3 + Abs(v3[i]) + 2)
Query == UNCHANGED <<obj, dir>> /\
  CASE e.op = "dot" -> e.v = Dot(A, B)
    [] e.op = "nsq" -> e.v = NormSq(A)
    [] e.op = "norm" -> e.n3_ok /\ e.v3_ok /\ Normalized(A, e.s, e.n3, e.v3) /\ e.rest
    [] e.op = "maxabs" -> e.n3_ok /\ e.v3_ok /\ Rescaled(A, e.s, e.aim, e.n3, e.v3) /\ e.rest
    [] e.op = "bonds" -> LET q == Inner(geo[A.g], A.bc) IN
         /\ e.phys = A.p /\ e.bc = A.bc
         /\ q # <<>> => e.all = q /\ e.min = MinOf(Range(q)) /\ e.max = MaxOf(Range(q)) /\ e.mm = <<e.min, e.max>> /\ e.even = (Cardinality(Range(q)) = 1)
         /\ q # <<>> /\ e.tps => e.tmax = MaxOf(Range(q)) /\ e.tuni = (Cardinality(Range(q)) = 1)
Adopt == obj' = Seen                              \* content after a refused load is not specified; others unchanged
Files ==
  CASE e.op = "dump" -> e.ret = "ok" /\ dir' = Written(A) /\ obj' = (IF e.rel THEN [obj EXCEPT ![e.a] = Released(A)] ELSE obj)
    [] e.op = "dumpbad" -> \* nothing that was not saved may be gone
         /\ e.ret = "threw" /\ UNCHANGED dir
         /\ \A i \in 1..Len(A.t) : Seen[e.a].t[i] \in (IF e.rel /\ i <= e.upto * A.p THEN {A.t[i], <<0>>} ELSE {A.t[i]})
         /\ obj' = [obj EXCEPT ![e.a] = Seen[e.a]]
    [] e.op = "load" -> UNCHANGED dir /\
         (IF Loadable(dir, A) THEN e.ret = "ok" /\ obj' = [obj EXCEPT ![e.a] = Loaded(dir, A)]
          ELSE e.ret = "no" /\ obj' = (IF dir.kind = "none" THEN obj ELSE [obj EXCEPT ![e.a] = None]))
    [] e.op = "hurt" -> obj' = obj /\ dir' = (CASE e.how = "rm" -> NoDir [] e.how \in {"old", "nobc", "bad"} -> [dir EXCEPT !.kind = e.how]
                                               [] e.how = "cut" -> [dir EXCEPT !.t[e.i] = <<1>>] [] e.how = "del" -> [dir EXCEPT !.t[e.i] = <<2>>])
Far == \* transfers between ranks, whole-file round trips of the unsplit forms
  CASE e.op = "mpi" -> e.verdict = "ok" /\ (CASE e.kind = "bcast" -> \A r \in 1..Len(e.dst) : e.dst[r] = e.src[e.a + 1]
                                              [] e.kind = "send" -> e.dst = [e.src EXCEPT ![e.b + 1] = e.src[e.a + 1]])
    [] e.op = "tps" -> e.ok /\ e.same /\ e.bc = e.bc0 /\ (e.bad => e.threw /\ e.kept)
    [] e.op = "peps" -> e.dumped /\ e.loaded /\ e.same /\ e.stray = 0 /\ (e.rel => e.freed) /\ (e.bad => e.refused)
TraceNext ==
  /\ l <= Len(Trace) /\ l' = l + 1
  /\ IF e.op = "begin" THEN obj' = [i \in 1..3 |-> None] /\ dir' = NoDir /\ geo' = e.geo
     ELSE UNCHANGED geo /\
       (IF e.op \in {"mpi", "tps", "peps"} THEN Far /\ UNCHANGED <<obj, dir>>
        ELSE /\ IF e.op \in {"dot", "nsq", "norm", "maxabs", "bonds"} THEN Query
                ELSE IF e.op \in {"dump", "dumpbad", "load", "hurt"} THEN Files
                ELSE CASE e.op = "new" -> Set(e.k, e.val) /\ e.val.bc = geo[e.val.g].bc /\ e.val.p = geo[e.val.g].p
                       [] e.op = "add" -> Set(e.k, Plus(A, B))
                       [] e.op = "sub" -> Set(e.k, Minus(A, B))
                       [] e.op = "neg" -> Set(e.k, Neg(A))
                       [] e.op = "mul" -> Set(e.k, Scale(A, e.sr, e.si))
                       [] e.op = "copy" -> Set(e.k, A)
                       [] e.op = "move" -> obj' = [obj EXCEPT ![e.k] = A, ![e.a] = None] /\ UNCHANGED dir
                       [] e.op = "sq" -> Set(e.k, Square(A))
                       [] e.op = "sqn" -> Set(e.k, SqNorm(A))
                       [] e.op = "abs" -> Set(e.k, AbsOf(A))
                       [] e.op = "inv" -> Set(e.k, A)
             /\ e.exact /\ obj' = Seen)
TraceSpec == TraceInit /\ [][TraceNext]_vars
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
