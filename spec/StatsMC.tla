------------------------------ MODULE StatsMC ------------------------------
(* The estimator's algebra, for every small sample: shift invariance, permutation invariance inside blocks, a constant
   series has zero error, duplicated data shrink the error, block length 1 reduces to the plain standard error. *)
EXTENDS Stats, TLC
CONSTANTS MaxN, B
VARIABLES x, y
Init == \E n \in 0..MaxN : x \in [1..n -> (0..B) \X (0..1)] /\ y \in [1..n -> (0..B) \X {0}]
Next == UNCHANGED <<x, y>>
Spec == Init /\ [][Next]_<<x, y>>
Shift(q, c) == [i \in 1..Len(q) |-> <<q[i][1] + c, q[i][2] - c>>]
ShiftInv == Len(x) > 0 => /\ Dev(Shift(x, 3)) = Dev(x)
                          /\ Tot(Shift(x, 3))[1] = Tot(x)[1] + 3 * Len(x)
NonNeg == Dev(x) >= 0 /\ (Dev(x) = 0 <=> \A i, j \in 1..Len(x) : x[i] = x[j])
BinCount == Len(x) > 0 => LET b == BinLen(Len(x)) IN /\ Len(BinsOf(x)) >= 1 /\ Len(BinsOf(x)) * b <= Len(x) /\ Len(x) - Len(BinsOf(x)) * b < b /\ b * b <= Len(x)
OneIsPlain == Len(x) \in 1..3 => Pool(<<x, y>>) = x \o y
Everyone == Len(x) > 0 => LET p == Pool(<<x, y>>) IN Tot(p)[1] = Tot(SubSeq(x, 1, BinLen(Len(x)) * (Len(x) \div BinLen(Len(x)))))[1] + Tot(SubSeq(y, 1, BinLen(Len(x)) * (Len(x) \div BinLen(Len(x)))))[1]
RankOrder == Dev(Pool(<<x, y>>)) = Dev(Pool(<<y, x>>))
IpsOk == Ips(x)[1] >= Ips(x)[2]
=============================================================================
