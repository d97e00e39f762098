------------------------------ MODULE DecompMC ------------------------------
(* All labellings of a small grid of quadrilaterals with up to three labels, every link order. *)
EXTENDS Decomp
CONSTANTS NX, NY
V(i, j) == i + (NX + 1) * j
El(n) == LET i == (n - 1) % NX j == (n - 1) \div NX
             a == V(i, j) b == V(i + 1, j) c == V(i + 1, j + 1) d == V(i, j + 1)
         IN  [v |-> <<a, b, c, d>>, f |-> {{a, b}, {b, c}, {c, d}, {d, a}}]
N == NX * NY
Outer == {f \in UNION {El(n).f : n \in 1..N} : Cardinality({n \in 1..N : f \in El(n).f}) = 1}
Surj(l) == {l[n] : n \in 1..N} = 1..SetMax({l[n] : n \in 1..N})
Init == /\ \E l \in [1..N -> 1..3] : Surj(l) /\ elems = [n \in 1..N |-> [v |-> El(n).v, f |-> El(n).f, a |-> l[n]]]
        /\ \E drop \in SUBSET {CHOOSE f \in Outer : TRUE} : bdr = [f \in Outer \ drop |-> 1 + ((CHOOSE x \in f : TRUE) % 2)]
        /\ whole \in BOOLEAN /\ skin = <<>> /\ ports = <<>>
Next == Cut \/ (skin # <<>> /\ \E i, j \in DOMAIN skin : \E f \in DOMAIN skin[i] : Link(i, j, f))
Spec == Init /\ [][Next]_dvars /\ WF_dvars(Next)
Terminates == <>Finished
=============================================================================
