------------------------------ MODULE ModelsMC ------------------------------
(* Facts about the Hamiltonians of Models.tla, for every configuration of a small lattice: matrix elements are symmetric, the
   conserved numbers are conserved, and the bond lists hold every pair at their distance exactly once. *)
EXTENDS Models
CONSTANTS R, C, BC, Names
VARIABLES name, cfg
G == [r |-> R, c |-> C, bc |-> BC]
Dim(n) == CASE n = "hub" -> 4 [] n \in {"tJ", "tJn"} -> 3 [] OTHER -> 2
M == [name |-> name, par |-> <<3, 5, 7, 2, 1>>]
Sites == 1..(R * C)
Init == name \in Names /\ cfg \in [Sites -> 0..(Dim(name) - 1)]
(* one term of the Hamiltonian acts: all configurations with a nonzero element *)
Near2 == {[cfg EXCEPT ![a] = x, ![b] = y] : a, b \in Sites, x, y \in 0..(Dim(name) - 1)}
Elem(s, t) == LET Amp(k) == IF k = t THEN <<1, 0>> ELSE Z0 IN Table(M, G, s, Amp).energy[1]   \* 4 <t|H|s>
Next == \E t \in Near2 : t # cfg /\ Elem(cfg, t) # 0 /\ cfg' = t /\ UNCHANGED name
Spec == Init /\ [][Next]_<<name, cfg>>
Symmetric == \A t \in Near2 : Elem(cfg, t) = Elem(t, cfg)
(* conserved under every nonzero element *)
Sz(s) == LET q == [i \in Sites |-> <<Sz4(M, s[i]), 0>>] IN Sum(q)[1]
Ne(s) == LET q == [i \in Sites |-> <<Dens(M, s[i]), 0>>] IN Sum(q)[1]
Conserved == [][ /\ name # "tfim" => Sz(cfg) = Sz(cfg')
                 /\ name \in {"sf", "hub", "tJ", "tJn"} => Ne(cfg) = Ne(cfg') ]_<<name, cfg>>
(* open lattices: the pairs of the classes are those at the stated distances, each once *)
Row(s) == (s - 1) \div C
Col(s) == (s - 1) % C
D2(a, b) == (Row(a) - Row(b)) * (Row(a) - Row(b)) + (Col(a) - Col(b)) * (Col(a) - Col(b))
AllPairs(cl) == {<<k, i>> : k \in cl, i \in 1..(R * C)} 
Und(n) == {{Pairs(G, k)[i][1], Pairs(G, k)[i][2]} : <<k, i>> \in {z \in AllPairs(Classes(G, n)) : z[2] <= Len(Pairs(G, z[1]))}}
NPairs(n) == LET q == Classes(G, n) Ln(k) == Len(Pairs(G, k)) IN Cardinality({z \in AllPairs(q) : z[2] <= Ln(z[1])})
At(D) == {{a, b} : <<a, b>> \in {z \in Sites \X Sites : D2(z[1], z[2]) \in D}}
BondsOnce == BC = 0 => /\ NPairs(name) = Cardinality(Und(name))
                       /\ name \in {"xxz", "tfim", "hub", "tJn"} => Und(name) = At({1})
                       /\ name \in {"j1j2", "sf", "tJ"} => Und(name) = At({1, 2})
                       /\ name = "tri" => Und(name) \subseteq At({1, 2}) /\ At({1}) \subseteq Und(name)
=============================================================================
