---------------------------- MODULE DirectionsMC ----------------------------
(* A walker on a torus: stepping in a direction and back in the opposite one always returns; the laws of the algebra. *)
EXTENDS Directions
CONSTANTS R, C
VARIABLES at, last
Step(a, p) == <<(a[1] + Vec(p)[1] + R) % R, (a[2] + Vec(p)[2] + C) % C>>
Init == at \in (0..R-1) \X (0..C-1) /\ last = "NONE"
Next == \E p \in Pos : at' = Step(at, p) /\ last' = p
Spec == Init /\ [][Next]_<<at, last>>
Back == [][Step(at', Opp(last')) = at]_<<at, last>>
Laws == \A p \in Pos : /\ Opp(Opp(p)) = p /\ Opp(p) # p /\ Orient(Opp(p)) = Orient(p) /\ Rot(Rot(Orient(p))) = Orient(p)
                       /\ Leg(Opp(p)) = (Leg(p) + 2) % 4
                       /\ \A q \in Pos : (Leg(p) = Leg(q)) => p = q
=============================================================================
