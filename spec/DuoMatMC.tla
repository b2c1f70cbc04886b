------------------------------ MODULE DuoMatMC ------------------------------
(* Explicit ownership model: cells hold element identities from a pool; refines DuoMat and shows exactly-once destruction. *)
EXTENDS DuoMat, Json, IOUtils, CSV
CONSTANTS K, EMIT
VARIABLES own, nextid, freed, hist      \* own: id -> [cell of element ids or -1]
vars == <<mats, own, nextid, freed, hist>>
Ids == {1, 2}
Cells(id) == DOMAIN mats[id].cell
ElemsOf(f, id) == {f[id][k] : k \in DOMAIN f[id]} \ {-1}
Fresh(n, src) == [k \in DOMAIN src |-> IF src[k] = -1 THEN -1 ELSE n + Cardinality({q \in DOMAIN src : q < k /\ src[q] # -1})]
Init == mats = [x \in {} |-> 0] /\ own = [x \in {} |-> 0] /\ nextid = 1 /\ freed = {} /\ hist = << >>
H(op, a) == hist' = Append(hist, <<op, a>>)
ReleaseOf(id) == IF id \in DOMAIN own THEN ElemsOf(own, id) ELSE {}
New(id, r, c) == NewM(id, r, c) /\ own' = (id :> Nulls(r * c)) @@ own /\ freed' = freed \cup ReleaseOf(id) /\ UNCHANGED nextid /\ H("new", <<id, r, c>>)
Copy(s, d, op) == /\ CopyM(s, d) /\ own' = (d :> Fresh(nextid, own[s])) @@ own /\ nextid' = nextid + Held(mats[s])
                  /\ freed' = freed \cup ReleaseOf(d) /\ H(op, <<s, d>>)
Move(s, d, op) == /\ mats' = (d :> mats[s]) @@ (s :> Empty0) @@ mats /\ own' = (d :> own[s]) @@ (s :> << >>) @@ own
                  /\ freed' = freed \cup ReleaseOf(d) /\ UNCHANGED nextid /\ H(op, <<s, d>>)
SetC(id, i, j, v) == LET k == Ix(mats[id], i, j) IN
      /\ SetE(id, i, j, v) /\ H("set", <<id, i, j, v>>)
      /\ IF own[id][k] = -1 THEN own' = [own EXCEPT ![id][k] = nextid] /\ nextid' = nextid + 1 ELSE UNCHANGED <<own, nextid>>
      /\ UNCHANGED freed
Alloc(id, i, j) == LET k == Ix(mats[id], i, j) IN
      /\ AllocE(id, i, j) /\ H("alloc", <<id, i, j>>)
      /\ freed' = freed \cup ({own[id][k]} \ {-1}) /\ own' = [own EXCEPT ![id][k] = nextid] /\ nextid' = nextid + 1
Dealloc(id, i, j) == LET k == Ix(mats[id], i, j) IN
      DeallocE(id, i, j) /\ H("dealloc", <<id, i, j>>) /\ freed' = freed \cup ({own[id][k]} \ {-1}) /\ own' = [own EXCEPT ![id][k] = -1] /\ UNCHANGED nextid
Clear(id) == ClearM(id) /\ H("clear", <<id>>) /\ freed' = freed \cup ElemsOf(own, id) /\ own' = [own EXCEPT ![id] = Nulls(Len(own[id]))] /\ UNCHANGED nextid
Del(id) == DelM(id) /\ H("del", <<id>>) /\ freed' = freed \cup ElemsOf(own, id) /\ own' = [x \in DOMAIN own \ {id} |-> own[x]] /\ UNCHANGED nextid
Next == /\ Len(hist) < K
        /\ \/ \E id \in Ids, sh \in {<<1, 2>>, <<2, 1>>} : New(id, sh[1], sh[2])
           \/ \E s \in DOMAIN mats : LET d == 3 - s IN
                \/ Copy(s, d, "copy") \/ Move(s, d, "movec")
                \/ d \in DOMAIN mats /\ (Copy(s, d, "assign") \/ Move(s, d, "movea"))
           \/ \E id \in DOMAIN mats :
                \/ \E i \in 0..(mats[id].r - 1), j \in 0..(mats[id].c - 1) : SetC(id, i, j, 10 * id + Len(hist)) \/ Alloc(id, i, j) \/ Dealloc(id, i, j)
                \/ Clear(id) \/ Del(id)
Spec == Init /\ [][Next]_vars
Owned == UNION {ElemsOf(own, id) : id \in DOMAIN own}
NoSharing == \A a, b \in DOMAIN own : a # b => ElemsOf(own, a) \cap ElemsOf(own, b) = {}
NoUseAfterFree == Owned \cap freed = {}
NoLeak == Owned \cup freed = 1..(nextid - 1)
Agree == \A id \in DOMAIN mats : Len(own[id]) = Len(mats[id].cell) /\ \A k \in DOMAIN own[id] : (own[id][k] = -1) <=> (mats[id].cell[k] = -1)
FreedOnce == [][ freed \subseteq freed' ]_vars
Emit == (EMIT /\ Len(hist) = K) => CSVWrite("%1$s", <<ToJson(hist)>>, IOEnv.OUT)
View == <<mats, own, freed, Len(hist)>>
=============================================================================
