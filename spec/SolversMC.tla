------------------------------ MODULE SolversMC -----------------------------
(* The algebra of the specification against finite differences (exact for polynomials of this degree). *)
EXTENDS Solvers, Randomization
CONSTANT Level
VARIABLE n
Exps == {e \in (0..2) \X (0..2) \X (0..2) : Tot(e) <= 2}
ES == {<<0, 0, 0>>, <<1, 0, 0>>, <<0, 1, 0>>, <<0, 0, 1>>, <<2, 0, 0>>, <<0, 2, 0>>, <<1, 1, 0>>, <<0, 1, 1>>}
Seqs(S) == {[i \in 1..2 |-> [c |-> f[1 + i], e |-> f[3 + i]]] : f \in {<<0>> \o g : g \in {-2, 1} \X {1, 3} \X S \X S}}
Pols == {Clean(p) : p \in Seqs(Exps)}
Few == {Clean(p) : p \in Seqs(ES)}
At(p, x) == Val(p, x, 1, 0)
V(p, x) == LET RECURSIVE G(_) G(k) == IF k = 0 THEN 0 ELSE p[k].c * Pow(x[1], p[k].e[1]) * Pow(x[2], p[k].e[2]) * Pow(x[3], p[k].e[3]) + G(k - 1) IN G(Len(p))
Sh(x, d, h) == [x EXCEPT ![d] = @ + h]
Pts == {<<0, 0, 0>>, <<1, -2, 3>>, <<2, 1, -1>>}
Some == IF Level = 1 THEN Few ELSE Pols
ASSUME \A p \in Pols, x \in Pts, d \in 1..3 : 2 * V(D(p, d), x) = V(p, Sh(x, d, 1)) - V(p, Sh(x, d, -1))
ASSUME \A p \in Pols, x \in Pts : V(Lap(p, 3), x) = V(p, Sh(x, 1, 1)) + V(p, Sh(x, 1, -1)) + V(p, Sh(x, 2, 1)) + V(p, Sh(x, 2, -1)) + V(p, Sh(x, 3, 1)) + V(p, Sh(x, 3, -1)) - 6 * V(p, x)
ASSUME \A p \in RandomSubset(25, Some), q \in RandomSubset(25, Some), x \in Pts : V(Times(p, q), x) = V(p, x) * V(q, x) /\ V(Plus(p, q), x) = V(p, x) + V(q, x)
\* scaled values
ASSUME \A p \in Pols, x \in Pts : Val(p, [d \in 1..3 |-> 4 * x[d]], 4, 2) = 16 * V(p, x)
\* the divergence theorem on the unit cell, through Simpson sums (exact here): source + flux balance
Simp(f(_)) == f(0) + 4 * f(1) + f(2)               \* 6 x the integral over [0, 1] of a function sampled at 0, 1/2, 1
V2(p, x) == Val(p, x, 2, 2)                       \* at half-integer points, x 4
Int2(p) == LET g(i) == (LET h(j) == V2(p, <<i, j, 0>>) IN Simp(h)) IN Simp(g)        \* 144 x integral over the unit square
Edge(p, d, c) == LET h(j) == V2(p, IF d = 1 THEN <<c, j, 0>> ELSE <<j, c, 0>>) IN Simp(h)   \* 24 x integral over a side
Pol2 == {p \in RandomSubset(IF Level = 1 THEN 60 ELSE 300, Pols) : \A i \in 1..Len(p) : p[i].e[3] = 0}
Fl(P, i) == Edge(Flux(P, 1, 1)[i], 1, 2) + Edge(Flux(P, 1, -1)[i], 1, 0) + Edge(Flux(P, 2, 1)[i], 2, 2) + Edge(Flux(P, 2, -1)[i], 2, 0)
ASSUME \A p \in Pol2 : LET P == [pde |-> "poisson", dim |-> 2, u |-> <<p>>, q |-> <<>>, w |-> <<>>, a |-> 0, b |-> 0] IN Int2(Source(P)[1]) = -6 * Fl(P, 1)
ASSUME \A p \in RandomSubset(8, Pol2), r \in RandomSubset(8, Pol2) : LET P == [pde |-> "linelast", dim |-> 2, u |-> <<p, r>>, q |-> <<>>, w |-> <<>>, a |-> 3, b |-> 2] IN \A i \in 1..2 : Int2(Source(P)[i]) = -6 * Fl(P, i)
ASSUME \A p \in RandomSubset(8, Pol2), r \in RandomSubset(8, Pol2) : LET P == [pde |-> "stokes", dim |-> 2, u |-> <<p, r>>, q |-> p, w |-> <<>>, a |-> 3, b |-> 2] IN \A i \in 1..2 : Int2(Source(P)[i]) = -6 * Fl(P, i)
Init == n = 0
Next == n < 1 /\ n' = n + 1
Spec == Init /\ [][Next]_n
=============================================================================
