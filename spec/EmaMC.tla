------------------------------- MODULE EmaMC -------------------------------
EXTENDS Ema, Json, IOUtils, CSV
CONSTANTS K, Vals, Windows, EMIT
VARIABLES t, hist, since
vars == <<t, hist, since>>
Init == \E w \in Windows : t = New(w) /\ hist = << >> /\ since = << >>
Next == /\ Len(hist) < K
        /\ \/ \E v \in Vals : t' = Upd(t, v * U) /\ hist' = Append(hist, v) /\ since' = Append(since, v * U)
           \/ t' = Rst(t) /\ hist' = Append(hist, 99) /\ since' = << >>
Spec == Init /\ [][Next]_vars
VarNonNegative == t.var >= 0
InitIff == t.init <=> since # << >>
MeanInHull == t.init => (\E i \in DOMAIN since : since[i] <= t.mean) /\ (\E i \in DOMAIN since : since[i] >= t.mean)
ConstantSeries == (t.init /\ \A i \in DOMAIN since : since[i] = since[1]) => t.mean = since[1] /\ t.var = 0
ExactDiv == t.mean % (U \div 64) = 0
ResetFresh == [][ hist' # hist /\ hist'[Len(hist')] = 99 => t' = New(t.w) ]_vars
Emit == (EMIT /\ Len(hist) = K) => CSVWrite("%1$s", <<ToJson([w |-> t.w, ops |-> hist])>>, IOEnv.OUT)
=============================================================================
