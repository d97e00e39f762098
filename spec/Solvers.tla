------------------------------- MODULE Solvers ------------------------------
(* The full-order solvers, seen through exact solutions they must reproduce.                       *)
(* A problem is given by a polynomial solution; the specification derives the volume source, the   *)
(* boundary data and the boundary conditions the solution satisfies, whatever the decomposition.   *)
EXTENDS Integers, Sequences, FiniteSets, TLC
Abs(a) == IF a < 0 THEN -a ELSE a
---------------------------------------------------------------------------
(* polynomials in up to three coordinates: sequences of terms [c, e] *)
T(c, i, j, k) == [c |-> c, e |-> <<i, j, k>>]
Sc(a, p) == [n \in 1..Len(p) |-> [c |-> a * p[n].c, e |-> p[n].e]]
Less(e, d) == [e EXCEPT ![d] = @ - 1]
\* one term per exponent, no zero terms
RECURSIVE Coef(_, _, _)
Coef(p, e, n) == IF n = 0 THEN 0 ELSE (IF p[n].e = e THEN p[n].c ELSE 0) + Coef(p, e, n - 1)
RECURSIVE Listed(_, _)
Listed(p, S) == IF S = {} THEN <<>> ELSE LET e == CHOOSE x \in S : TRUE c == Coef(p, e, Len(p)) IN
                                   (IF c = 0 THEN <<>> ELSE <<[c |-> c, e |-> e]>>) \o Listed(p, S \ {e})
Clean(p) == Listed(p, {p[n].e : n \in 1..Len(p)})
D(p, d) == Clean([n \in 1..Len(p) |-> [c |-> p[n].c * p[n].e[d], e |-> IF p[n].e[d] = 0 THEN <<0, 0, 0>> ELSE Less(p[n].e, d)]])
Plus(p, q) == Clean(p \o q)
Times(p, q) == IF p = <<>> \/ q = <<>> THEN <<>> ELSE
  Clean([n \in 1..(Len(p) * Len(q)) |-> LET a == p[((n - 1) \div Len(q)) + 1] b == q[((n - 1) % Len(q)) + 1]
                                         IN [c |-> a.c * b.c, e |-> <<a.e[1] + b.e[1], a.e[2] + b.e[2], a.e[3] + b.e[3]>>]])
RECURSIVE SumP(_, _)
SumP(ps, n) == IF n = 0 THEN <<>> ELSE Plus(ps[n], SumP(ps, n - 1))
Sum(ps) == SumP(ps, Len(ps))
Lap(p, dim) == Sum([d \in 1..dim |-> D(D(p, d), d)])
Div(u, dim) == Sum([d \in 1..dim |-> D(u[d], d)])
RECURSIVE Pow(_, _)
Pow(x, n) == IF n = 0 THEN 1 ELSE x * Pow(x, n - 1)
Tot(e) == e[1] + e[2] + e[3]
\* value at x / W, multiplied by W^deg
RECURSIVE ValN(_, _, _, _, _)
ValN(p, x, W, deg, n) == IF n = 0 THEN 0 ELSE p[n].c * Pow(x[1], p[n].e[1]) * Pow(x[2], p[n].e[2]) * (IF Len(x) < 3 THEN 1 ELSE Pow(x[3], p[n].e[3]))
                                              * Pow(W, deg - Tot(p[n].e)) + ValN(p, x, W, deg, n - 1)
Val(p, x, W, deg) == ValN(p, x, W, deg, Len(p))
---------------------------------------------------------------------------
(* problems [pde, dim, u, q, w, a, b]: solution u (components), pressure q, flow w, material numbers a, b *)
Flow(P) == P.pde \in {"stokes", "ns"}
Vars(P) == IF Flow(P) THEN <<P.u, <<P.q>>>> ELSE <<P.u>>
Convect(u, p, dim) == Sum([d \in 1..dim |-> Times(u[d], D(p, d))])
Source(P) == [i \in 1..Len(P.u) |->
  CASE P.pde = "poisson" -> Sc(-1, Lap(P.u[i], P.dim))
    [] P.pde = "advdiff" -> Plus(Sc(-1, Lap(P.u[i], P.dim)), Sc(P.a, Convect(P.w, P.u[i], P.dim)))
    [] P.pde = "linelast" -> Sc(-1, Plus(Sc(P.a + P.b, D(Div(P.u, P.dim), i)), Sc(P.b, Lap(P.u[i], P.dim))))
    [] OTHER -> Sum(<<Sc(-P.a, Lap(P.u[i], P.dim)), D(P.q, i), IF P.pde = "ns" THEN Sc(P.b, Convect(P.u, P.u[i], P.dim)) ELSE <<>>>>)]
\* what passes through a side with outward normal s * e_d
Flux(P, d, s) == [i \in 1..Len(P.u) |-> Sc(s,
  CASE P.pde \in {"poisson", "advdiff"} -> D(P.u[i], d)
    [] P.pde = "linelast" -> Plus(IF i = d THEN Sc(P.a, Div(P.u, P.dim)) ELSE <<>>, Sc(P.b, Plus(D(P.u[i], d), D(P.u[d], i))))
    [] OTHER -> Plus(Sc(P.a, D(P.u[i], d)), IF i = d THEN Sc(-1, P.q) ELSE <<>>))]
\* zero on a side: everywhere for the high side (wherever it lies), at coordinate 0 for the low side
ZeroOn(p, d, s) == \A n \in 1..Len(p) : s = -1 /\ p[n].e[d] > 0
Incompressible(P) == Flow(P) => Div(P.u, P.dim) = <<>>
---------------------------------------------------------------------------
(* boundary conditions a solution satisfies on a set of sides [d, s] sharing one label *)
Allowed(P, sides) == {"dirichlet"}
  \cup (IF P.pde # "linelast" /\ \A x \in sides, i \in 1..Len(P.u) : ZeroOn(P.u[i], x.d, x.s) THEN {"zero"} ELSE {})
  \cup (IF P.pde = "linelast" THEN (IF Cardinality(sides) = 1 THEN {"neumann"} ELSE {})
        \* flow carries the unknown away only through sides it leaves (coordinates are not negative)
        ELSE IF P.pde = "advdiff" /\ \E x \in sides : \E n \in 1..Len(P.w[x.d]) : P.w[x.d][n].c * x.s < 0 THEN {}
        ELSE IF \A x \in sides : \A i \in 1..Len(P.u) : ZeroOn(Flux(P, x.d, x.s)[i], x.d, x.s) THEN {"neumann"} ELSE {})
\* the pressure is fixed only when some part of the boundary leaves the velocity free
Floating(P, types) == Flow(P) /\ \A t \in types : t # "neumann"
=============================================================================
