------------------------------ MODULE FacesMC ------------------------------
(* Orientation codes: side 1 lists a face's vertices in some order, side 2 in any rotation or    *)
(* reflection of it; correcting side 2 by the orientation relating the two lists makes the        *)
(* reference points coincide, for segments, triangles and quadrilaterals; no other code does.     *)
EXTENDS Integers, Sequences, FiniteSets, TLC
VARIABLES n, o1, o2, ori, chosen
vars == <<n, o1, o2, ori, chosen>>
\* the symmetries of an n-gon as permutations of 1..n (2n of them; 2 for a segment)
Rot(k, m) == [i \in 1..m |-> 1 + ((i - 1 + k) % m)]
Ref(k, m) == [i \in 1..m |-> 1 + ((k - (i - 1) + m) % m)]
Sym(m) == IF m = 2 THEN {<<1, 2>>, <<2, 1>>} ELSE {Rot(k, m) : k \in 0..(m - 1)} \cup {Ref(k, m) : k \in 0..(m - 1)}
Init == n \in {2, 3, 4} /\ o1 \in Sym(n) /\ o2 \in Sym(n) /\ ori = <<>> /\ chosen = FALSE
\* relative orientation: the symmetry s with o2[s[i]] = o1[i]
Choose == ~chosen /\ chosen' = TRUE /\ \E s \in Sym(n) : (\A i \in 1..n : o2[s[i]] = o1[i]) /\ ori' = s /\ UNCHANGED <<n, o1, o2>>
Spec == Init /\ [][Choose]_vars /\ WF_vars(Choose)
Agree == chosen => \A i \in 1..n : o2[ori[i]] = o1[i]
Unique == Cardinality({s \in Sym(n) : \A i \in 1..n : o2[s[i]] = o1[i]}) = 1
Always == <>chosen
=============================================================================
