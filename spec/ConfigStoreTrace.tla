-------------------------- MODULE ConfigStoreTrace --------------------------
EXTENDS ConfigStore, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l
e == Trace[l]
Seen == e.obj[e.k].v
MaxOf(v) == CHOOSE m \in {v[i] : i \in 1..Len(v)} : \A i \in 1..Len(v) : v[i] <= m
Derived == \A k \in 1..Len(e.obj) : LET v == obj'[k].v IN
  /\ e.obj[k].r = obj'[k].r /\ e.obj[k].c = obj'[k].c /\ e.obj[k].v = v
  /\ e.obj[k].sum = Tot(v, Len(v)) /\ e.obj[k].occ = [s \in 1..(MaxOf(v) + 1) |-> Count(v, s - 1)]
TraceInit == l = 1 /\ obj = <<>> /\ file = <<>> /\ ret = "ok"
Transfer == \* e.src[r] configurations before, e.dst[r] after, on each rank
  /\ e.verdict = "ok"
  /\ CASE e.kind = "send" -> e.dst = [e.src EXCEPT ![e.b + 1] = e.src[e.a + 1]]
       [] e.kind = "bcast" -> \A r \in 1..Len(e.dst) : e.dst[r] = e.src[e.a + 1]
       [] e.kind = "ring" -> \A r \in 1..Len(e.dst) : e.dst[r] = e.src[((r - 1 + Len(e.dst) - e.a) % Len(e.dst)) + 1]
Params == IF file[1].side \in {<<r, c>> : r \in 1..99, c \in 1..99} /\ Readable([r |-> file[1].side[1], c |-> file[1].side[2]], file[1])
          THEN ~e.threw /\ e.r = file[1].side[1] /\ e.c = file[1].side[2] /\ e.v = SubSeq(file[1].tok, 1, e.r * e.c) /\ e.ints
          ELSE e.threw
TraceNext ==
  /\ l <= Len(Trace) /\ l' = l + 1
  /\ CASE e.op = "begin" -> obj' = [k \in 1..Len(e.shapes) |-> [r |-> e.shapes[k][1], c |-> e.shapes[k][2], v |-> e.obj[k].v]] /\ file' = [f \in 1..2 |-> NoFile] /\ ret' = "ok" /\ Derived
       [] e.op = "mpi" -> Transfer /\ UNCHANGED <<obj, file, ret>>
       [] e.op = "params" -> Params /\ UNCHANGED <<obj, file, ret>>
       [] OTHER -> /\ CASE e.op = "dump" -> Dump(e.k, e.f)
                        [] e.op = "dumpbad" -> DumpFails(e.k)
                        [] e.op = "load" -> Load(e.k, e.f, Seen)
                        [] e.op = "loadmiss" -> ret' = "no" /\ UNCHANGED <<obj, file>>
                        [] e.op = "set" -> Set(e.k, e.i, e.x)
                        [] e.op = "fill" -> Fill(e.k, e.want, Seen)
                        [] e.op = "rnd" -> RandomDim(e.k, e.x, Seen)
                        [] e.op = "copy" -> Copy(e.k, e.q)
                        [] e.op = "hurt" -> Hurt(e.f, [tok |-> e.tok, side |-> e.side])
                   /\ e.ret = ret' /\ Derived
TraceSpec == TraceInit /\ [][TraceNext]_<<l, obj, file, ret>>
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
