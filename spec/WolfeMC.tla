------------------------------ MODULE WolfeMC ------------------------------
EXTENDS Wolfe
CONSTANTS Phis, Slopes, Caps
PhiSet == {1, 0, -1, -3}
SlopeSet == {2, 0, -1, -3}
VARIABLES w, s, last
Ws == [c1 : {1, 4}, c2 : {6, 14}, min : {1}, max : {256, 1024}, lr : {64, 256}, tc : {0, 16}, tg16 : {0, 20}, cap : Caps, fb : {TRUE}, fbs : {1}]
Init == w \in Ws /\ \E g \in {1, 2} : s = Search0(w, 0, 0 - g * g) /\ last = <<0, 0>>
Next == Running(s) /\ ~(s.ph = "zoom" /\ Odd(s)) /\ \E f \in Phis, d \in Slopes : s' = Probe(w, s, f, d) /\ last' = <<f, d>> /\ UNCHANGED w
Spec == Init /\ [][Next]_<<w, s, last>> /\ WF_<<w, s, last>>(Next)
Accepted == s.ph = "ok" => Armijo(w, s, s.a, last[1]) /\ Flat(w, s, last[2]) /\ last[1] <= s.phi0
Limits == s.n <= w.cap /\ (s.n > 0 => s.a <= w.max /\ s.a >= 0)
BracketLow == s.ph = "zoom" => s.plo <= s.phi0
Ends == <>(~Running(s) \/ Odd(s))
=============================================================================
