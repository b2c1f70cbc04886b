----------------------------- MODULE Directions -----------------------------
(* The four boundary positions of a square-lattice contraction as unit vectors <<drow, dcol>>, numbered in the index order
   of a site tensor (left, down, right, up), and the two bond orientations. *)
EXTENDS Integers, Sequences, FiniteSets, TLC
Pos == {"LEFT", "DOWN", "RIGHT", "UP"}
Leg(p) == CASE p = "LEFT" -> 0 [] p = "DOWN" -> 1 [] p = "RIGHT" -> 2 [] p = "UP" -> 3
Vec(p) == CASE p = "LEFT" -> <<0, -1>> [] p = "DOWN" -> <<1, 0>> [] p = "RIGHT" -> <<0, 1>> [] p = "UP" -> <<-1, 0>>
Opp(p) == CHOOSE q \in Pos : Vec(q)[1] = -Vec(p)[1] /\ Vec(q)[2] = -Vec(p)[2]
Orient(p) == IF Vec(p)[1] = 0 THEN "HORIZONTAL" ELSE "VERTICAL"
Rot(o) == IF o = "HORIZONTAL" THEN "VERTICAL" ELSE "HORIZONTAL"
=============================================================================
