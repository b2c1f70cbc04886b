------------------------------ MODULE TpsAlgMC ------------------------------
(* Laws of the algebra over all small values, and of the store over all short histories. *)
EXTENDS TpsAlg
CONSTANTS V, K
Vals == {-2, 0, 1, 3}
VARIABLES a, b, s, obj, dir, n, last
Ten == {<<>>} \cup {<<x, y>> : x \in V, y \in V}
Obj(bc, x, y) == [g |-> 1, bc |-> bc, p |-> 1, t |-> <<x, y>>]
vars == <<a, b, s, obj, dir, n, last>>
Init == \/ /\ a \in {Obj(1, x, y) : x \in Ten, y \in {<<>>, <<2, -1>>}} /\ b \in {Obj(1, x, y) : x \in {<<>>, <<1, 1>>}, y \in Ten} /\ s \in V \X V
           /\ obj = <<>> /\ dir = NoDir /\ n = 0 /\ last = "alg"
        \/ /\ a = None /\ b = None /\ s = <<0, 0>> /\ n = 0 /\ last = "io" /\ dir = NoDir
           /\ obj = <<Obj(1, <<3, 0>>, <<>>), Obj(0, <<1, 1>>, <<4, 0>>), None>>
Same == UNCHANGED <<a, b, s>>
Dump(k, rel) == obj[k].g # 0 /\ (\A i \in 1..2 : obj[k].t[i] # <<0>>) /\ dir' = Written(obj[k]) /\ obj' = (IF rel THEN [obj EXCEPT ![k] = Released(@)] ELSE obj) /\ last' = "dump"
Load(k) == /\ dir' = dir
           /\ IF Loadable(dir, obj[k]) THEN obj' = [obj EXCEPT ![k] = Loaded(dir, obj[k])] /\ last' = "ok" ELSE obj' = (IF dir.kind = "none" THEN obj ELSE [obj EXCEPT ![k] = None]) /\ last' = "no"
Hurt == dir.kind # "none" /\ last' = "hurt" /\ obj' = obj /\ (\/ dir' = [dir EXCEPT !.kind = "old"] \/ dir' = [dir EXCEPT !.kind = "nobc"] \/ dir' = [dir EXCEPT !.kind = "bad"] \/ dir' = [dir EXCEPT !.t[2] = <<1>>] \/ dir' = NoDir)
Next == last # "alg" /\ n < K /\ n' = n + 1 /\ Same /\ (Hurt \/ \E k \in 1..3 : (\E r \in BOOLEAN : Dump(k, r)) \/ Load(k))
Spec == Init /\ [][Next]_vars
Alg == last = "alg"
Entry(x, k) == IF Len(x.t[k]) < 2 THEN <<0, 0>> ELSE x.t[k]
EqVec(x, y) == x.bc = y.bc /\ \A k \in 1..2 : Entry(x, k) = Entry(y, k)
Commutes == Alg => EqVec(Plus(a, b), Plus(b, a))
Inverts == Alg => EqVec(Minus(Plus(a, b), b), a)
Linear == Alg => EqVec(Scale(Plus(a, b), s[1], s[2]), Plus(Scale(a, s[1], s[2]), Scale(b, s[1], s[2])))
Hermitian == Alg => Dot(a, b) = <<Dot(b, a)[1], 0 - Dot(b, a)[2]>>
Positive == Alg => NormSq(a) >= 0 /\ Dot(a, a)[2] = 0 /\ (NormSq(a) = 0 => EqVec(a, Scale(a, 0, 0)))
Polar == Alg => NormSq(Plus(a, b)) = NormSq(a) + NormSq(b) + 2 * Dot(a, b)[1]
SquareNorm == Alg => NormSq(Square(a)) = NormSq(SqNorm(a))
SitesAdd == Alg => NormSq(a) = SiteSq(a, 1) + SiteSq(a, 2)
KeepsBc == Alg => Plus(a, b).bc = a.bc /\ Scale(a, 2, 0).bc = a.bc /\ Square(a).bc = a.bc
(* a load either reproduces the dumped state exactly or says no; only the loaded object changes *)
Faithful == [][last' = "ok" => \E k \in 1..3 : obj'[k].t = dir.t /\ obj'[k].p = dir.p /\ \A j \in 1..3 : j # k => obj'[j] = obj[j]]_vars
NoReleased == [][last' = "dump" => Sound(dir') /\ <<0>> \notin Range(dir'.t)]_vars
=============================================================================
