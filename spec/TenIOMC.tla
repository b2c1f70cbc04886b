------------------------------ MODULE TenIOMC ------------------------------
EXTENDS TenIO, Json, IOUtils, CSV
CONSTANTS K, EMIT
VARIABLES hist
vars == <<mat, fs, ret, hist>>
Init == mat = [m \in 1..2 |-> <<-1, -1>>] /\ fs = <<-1, -1, -1, -1>> /\ ret = TRUE /\ hist = << >>
H(x) == hist' = Append(hist, x)
Fs == {"f1", "miss/x", "/dev/full"}
Next == /\ Len(hist) < K
        /\ \E m \in 1..2, k \in 1..2 :
             \/ SetV(m, k, 10 + Len(hist)) /\ H(<<"set", m, k, 10 + Len(hist)>>)
             \/ m = 1 /\ Drop(m, k) /\ H(<<"dealloc", m, k>>)
             \/ \E f \in Fs : Dump(m, k, f, TRUE) /\ H(<<"dumpr", m, k, f>>)
             \/ \E f \in Fs : Dump(m, k, f, FALSE) /\ H(<<"dumpk", m, k, f>>)
             \/ \E f \in {"f1", "miss/x"} : (LoadOk(m, k, f) \/ LoadFail(m, k, f, 0)) /\ H(<<"load", m, k, f>>)
             \/ m = 1 /\ k = 1 /\ Damage("f1") /\ H(<<"trunc", m, k, "f1">>)
Spec == Init /\ [][Next]_vars
(* a value stored in a slot is lost only by overwriting, an explicit release, or a load into that slot *)
NoSilentLoss == [][ \A m \in 1..2, k \in 1..2 : (mat[m][k] # -1 /\ mat'[m][k] = -1) =>
                      LET h == hist'[Len(hist')] IN h[1] = "dealloc" \/ (h[1] = "dumpr" /\ ret' /\ fs'[1] = mat[m][k]) ]_vars
OnlyTargetTouched == [][ \A m \in 1..2, k \in 1..2 : mat'[m][k] # mat[m][k] => LET h == hist'[Len(hist')] IN h[2] = m /\ h[3] = k ]_vars
RoundTrip == [][ LET h == hist'[Len(hist')] IN (h[1] = "load" /\ ret') => mat'[h[2]][h[3]] = fs[1] ]_vars
Emit == (EMIT /\ Len(hist) = K) => CSVWrite("%1$s", <<ToJson(hist)>>, IOEnv.OUT)
View == <<mat, fs, ret, Len(hist)>>
=============================================================================
