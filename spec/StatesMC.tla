------------------------------ MODULE StatesMC ------------------------------
(* Explores the states reached from products by gates of the four triangle and two bond kinds and by superposition, and checks the laws
   the trace specification relies on: where a gate acts, that it is linear and local, and what an expectation value is. *)
EXTENDS States
CONSTANTS R, C, BC, Depth
P == 2
NS == R * C
Geo == [r |-> R, c |-> C, bc |-> BC]
M == Pow(P, NS)
VARIABLES psi, k
vars == <<psi, k>>
(* gates given by their matrix over the listed sites, as functions <<in, out>> -> Gaussian integer *)
Flatten(f, q) == [i \in 1..(2 * q * q) |-> f[((i - 1) \div 2) \div q][((i - 1) \div 2) % q][2 - (i % 2)]]
Raise(q) == TLCEval(Flatten([i \in 0..(q - 1) |-> [o \in 0..(q - 1) |-> IF o = (i + 1) % q THEN <<1, 0>> ELSE IF i = o THEN <<0, 1>> ELSE <<0, 0>>]], q))
Unit(q) == TLCEval(Flatten([i \in 0..(q - 1) |-> [o \in 0..(q - 1) |-> IF i = o THEN <<1, 0>> ELSE <<0, 0>>]], q))
Herm(q) == TLCEval(Flatten([i \in 0..(q - 1) |-> [o \in 0..(q - 1) |-> IF i = o THEN <<i - 1, 0>> ELSE IF i < o THEN <<i + 1, o - 2>> ELSE <<o + 1, 2 - i>>]], q))
Gates2 == {Raise(4), Herm(4)}
Gates3 == {Raise(8)}
Spots == {<<kd, i, j>> \in {"h", "v", "A", "B", "C", "D"} \X (0..(R - 1)) \X (0..(C - 1)) :
  \/ BC = 1
  \/ CASE kd = "h" -> j < C - 1 [] kd = "v" -> i < R - 1 [] kd \in {"A", "C"} -> i < R - 1 /\ j > 0 [] kd \in {"B", "D"} -> i < R - 1 /\ j < C - 1}
SitesAt(x) == Sites(Geo, x[1], x[2], x[3])
SetOf(s) == {s[i] : i \in 1..Len(s)}
Size(x) == IF x[1] \in {"h", "v"} THEN 4 ELSE 8
GatesFor(x) == IF Size(x) = 4 THEN Gates2 ELSE Gates3
Act(v, x, g) == Apply(v, P, NS, SitesAt(x), g)
Sum(a, b) == TLCEval([i \in 1..Len(a) |-> a[i] + b[i]])
Probe == Product(P, [s \in 1..NS |-> s % 2])
Init == k = 0 /\ \E c \in {[s \in 1..NS |-> 0], [s \in 1..NS |-> s % 2], [s \in 1..NS |-> 1]} : psi = Product(P, c)
Next == k < Depth /\ k' = k + 1 /\ \E x \in Spots : \E g \in GatesFor(x) : psi' = Act(psi, x, g)
Spec == Init /\ [][Next]_vars
(* A gate touches distinct sites, and neighbours only through the bonds it may rewrite *)
Places == \A x \in Spots : Cardinality(SetOf(SitesAt(x))) = Len(SitesAt(x)) /\ Cardinality(Bonds(Geo, x[1], x[2], x[3])) = Len(SitesAt(x)) - 1
Identity == \A x \in Spots : Act(psi, x, Unit(Size(x))) = psi
Linear == \A x \in Spots : \A g \in GatesFor(x) : Act(Combine(<<psi, Probe>>, <<2, -1, 0, 3>>, 2), x, g) = Combine(<<Act(psi, x, g), Act(Probe, x, g)>>, <<2, -1, 0, 3>>, 2)
Commute == \A x \in Spots : \A y \in Spots : SetOf(SitesAt(x)) \cap SetOf(SitesAt(y)) = {} =>
             \A g \in GatesFor(x) : \A h \in GatesFor(y) : Act(Act(psi, x, g), y, h) = Act(Act(psi, y, h), x, g)
(* an observable has a real expectation value, and that of the unit is the norm *)
Real == \A x \in Spots : Expectation(psi, P, NS, SitesAt(x), Herm(Size(x)))[2] = 0 /\ Expectation(psi, P, NS, SitesAt(x), Unit(Size(x))) = <<Norm2(psi), 0>>
(* listing the sites in another order only relabels the operator *)
Turn(m, q) == [i \in 1..(2 * q * q) |-> LET a == ((i - 1) \div 2) \div q  o == ((i - 1) \div 2) % q  t(z) == (z % 2) * 2 + (z \div 2) IN m[2 * (t(a) * q + t(o)) + 2 - (i % 2)]]
Relabel == \A x \in Spots : Size(x) = 4 => LET s == SitesAt(x) IN \A g \in Gates2 : Apply(psi, P, NS, s, g) = Apply(psi, P, NS, <<s[2], s[1]>>, Turn(g, 4))
(* amplitudes on configurations that differ elsewhere never mix *)
Local == [][\E x \in Spots : \A q \in 0..(M - 1) : At(psi', q) # <<0, 0>> =>
             \E p \in 0..(M - 1) : At(psi, p) # <<0, 0>> /\ \A s \in (1..NS) \ SetOf(SitesAt(x)) : Digit(P, NS, p, s) = Digit(P, NS, q, s)]_vars
=============================================================================
