---------------------------- MODULE DuoMatTrace ----------------------------
EXTENDS DuoMat, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l
e == Trace[l]
a == e.a
Row(m, i) == [j \in 1..m.c |-> m.cell[Ix(m, i - 1, j - 1)]]
Col(m, j) == [i \in 1..m.r |-> m.cell[Ix(m, i - 1, j - 1)]]
Ids == {e.all[k].id : k \in DOMAIN e.all}
Obs(o, m) ==
  /\ o.r = m.r /\ o.c = m.c /\ o.size = m.r * m.c /\ o.lh = m.c /\ o.lv = m.r
  /\ o.cells = m.cell /\ o.empty = (Held(m) = 0) /\ o.full = (Held(m) = Len(m.cell))
  /\ o.rows = [i \in 1..m.r |-> Row(m, i)] /\ o.sr = o.rows /\ o.cd = o.rows
  /\ o.cols = [j \in 1..m.c |-> Col(m, j)] /\ o.sc = o.cols
  /\ o.full => o.it = m.cell /\ o.it2 = m.cell
AllObs == /\ ~e.dbl /\ ~e.shared /\ e.ret
          /\ DOMAIN mats' = Ids
          /\ \A k \in DOMAIN e.all : /\ Obs(e.all[k], mats'[e.all[k].id])
                                     /\ \A q \in DOMAIN e.all : e.all[k].eq[q] = EqM(mats'[e.all[k].id], mats'[e.all[q].id])
          /\ e.live = LiveElems(mats')
TraceInit == l = 1 /\ mats = [x \in {} |-> 0]
TraceNext ==
  /\ l <= Len(Trace) /\ l' = l + 1
  /\ IF e.op = "end" THEN e.live = 0 /\ ~e.dbl /\ UNCHANGED mats ELSE
     /\ CASE e.op = "begin" -> mats' = [x \in {} |-> 0]
          [] e.op = "new" -> NewM(a[1], a[2], a[3])
          [] e.op = "newd" -> NewM(a[1], 0, 0)
          [] e.op \in {"copy", "assign"} -> CopyM(a[1], a[2])
          [] e.op \in {"movec", "movea"} -> MoveM(a[1], a[2])
          [] e.op \in {"set", "ptr"} -> SetE(a[1], a[2], a[3], a[4])
          [] e.op = "alloc" -> AllocE(a[1], a[2], a[3])
          [] e.op = "dealloc" -> DeallocE(a[1], a[2], a[3])
          [] e.op = "clear" -> ClearM(a[1])
          [] e.op \in {"fill", "fillp"} -> FillM(a[1], a[2])
          [] e.op = "del" -> DelM(a[1])
     /\ AllObs
TraceSpec == TraceInit /\ [][TraceNext]_<<l, mats>>
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
