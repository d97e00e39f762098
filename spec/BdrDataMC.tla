----------------------------- MODULE BdrDataMC -----------------------------
(* The forms on one cell [0, 1] with linear functions u = a + b x, exactly, at x = 1 or x = 0:     *)
(* <-mu u' n, v> + alpha <u, mu v' n> + kappa <mu u, v> and its right-hand side for data g.         *)
(* Where g is u's trace, what is left does not depend on alpha and kappa; and only there.           *)
EXTENDS BdrData
CONSTANTS V
VARIABLES x
Tr(u, p) == u[1] + u[2] * p
N(p) == IF p = 1 THEN 1 ELSE -1
Basis == <<<<1, -1>>, <<0, 1>>>>
Op(u, p, mu, al, ka) == [i \in 1..2 |-> -(mu * u[2] * N(p) * Tr(Basis[i], p)) + al * Tr(u, p) * mu * Basis[i][2] * N(p) + ka * mu * Tr(u, p) * Tr(Basis[i], p)]
Rhs(g, p, mu, al, ka) == [i \in 1..2 |-> al * g * mu * Basis[i][2] * N(p) + ka * mu * g * Tr(Basis[i], p)]
Flux(u, p, mu) == [i \in 1..2 |-> -(mu * u[2] * N(p) * Tr(Basis[i], p))]
Init == x \in [a : -V..V, b : -V..V, g : -2 * V..2 * V, p : {0, 1}, mu : 1..2, al : -1..1, ka : 1..3]
Next == FALSE /\ UNCHANGED x
Spec == Init /\ [][Next]_x
Left == LET u == <<x.a, x.b>> IN [i \in 1..2 |-> Op(u, x.p, x.mu, x.al, x.ka)[i] - Rhs(x.g, x.p, x.mu, x.al, x.ka)[i]]
ExactSolution == (x.g = Tr(<<x.a, x.b>>, x.p)) <=> (Left = Flux(<<x.a, x.b>>, x.p, x.mu))
=============================================================================
