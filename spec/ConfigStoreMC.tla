--------------------------- MODULE ConfigStoreMC ---------------------------
EXTENDS ConfigStore, TLC, Json, CSV, IOUtils
CONSTANTS K, EMIT
VARIABLES hist
vars == <<obj, file, ret, hist>>
Init == /\ obj = <<[r |-> 1, c |-> 2, v |-> <<0, 0>>], [r |-> 2, c |-> 1, v |-> <<5, 6>>], [r |-> 1, c |-> 2, v |-> <<7, 8>>]>>
        /\ file = <<NoFile, NoFile>> /\ ret = "ok" /\ hist = <<>>
H(x) == hist' = Append(hist, x)
Hurts(f) == {[f EXCEPT !.side = <<>>], [f EXCEPT !.side = <<-1>>], [f EXCEPT !.tok = SubSeq(@, 1, 1)], NoFile, [f EXCEPT !.side = <<2, 1>>], [f EXCEPT !.tok = <<@[1], -1>>]}
Next == /\ Len(hist) < K
        /\ \/ \E k \in 1..3, f \in 1..2 : Dump(k, f) /\ H([op |-> "dump", k |-> k, f |-> f])
           \/ \E k \in 1..3, f \in 1..2 : Load(k, f, obj[k].v) /\ H([op |-> "load", k |-> k, f |-> f])
           \/ \E k \in {1, 2} : Set(k, 2, 3) /\ H([op |-> "set", k |-> k, i |-> 2, x |-> 3])
           \/ \E f \in {1} : file[f] # NoFile /\ Len(file[f].tok) = 2 /\ \E x \in Hurts(file[f]) : Hurt(f, x) /\ H([op |-> "hurt", f |-> f, tok |-> x.tok, side |-> x.side])
Spec == Init /\ [][Next]_vars
LastIs(o) == hist' # hist /\ hist'[Len(hist')].op = o
(* a successful load yields exactly what was dumped last under that label, and never with the wrong shape *)
RoundTrip == [][LastIs("load") /\ ret' = "ok" => LET h == hist'[Len(hist')] IN obj'[h.k].v = SubSeq(file[h.f].tok, 1, 2) /\ (file[h.f].side = <<>> \/ file[h.f].side = Shape(obj[h.k]))]_vars
DumpLoad == [][LastIs("dump") => LET h == hist'[Len(hist')] IN Readable(obj[h.k], file'[h.f]) /\ Fits(obj[h.k], file'[h.f])]_vars
OthersKept == [][\A k \in 1..3 : obj'[k] # obj[k] => hist'[Len(hist')].k = k]_vars
ShapeKept == [][\A k \in 1..3 : Shape(obj'[k]) = Shape(obj[k])]_vars
Emit == (EMIT /\ Len(hist) = K) => CSVWrite("%1$s", <<ToJson(hist)>>, IOEnv.OUT)
=============================================================================
