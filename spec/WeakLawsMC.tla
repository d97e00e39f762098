----------------------------- MODULE WeakLawsMC -----------------------------
(* The laws hold for the intended fluxes: finite volumes in a periodic row of cells, with the      *)
(* Lax-Friedrichs flux, and two-node elements with Temam's form, for every small state; marching     *)
(* the finite volumes conserves the total momentum and keeps uniform states.                         *)
EXTENDS WeakLaws, FiniteSets, TLC
CONSTANTS M, Steps
VARIABLES u, n, total
vars == <<u, n, total>>
Cells == 1..3
Max(a, b) == IF a > b THEN a ELSE b
\* twice the flux from a to b in direction s = +1 / -1 (out of a)
Flux2(a, b, s) == s * (a * a + b * b) + 2 * Max(Abs(a), Abs(b)) * (a - b)
Face(a, b) == [integ |-> "lf", kind |-> 1, nd1 |-> 1, nd2 |-> 1, dim |-> 1, x |-> <<a, b>>, F |-> <<-Flux2(a, b, 1), Flux2(a, b, 1)>>, const |-> a = b, c |-> <<a>>, cN |-> 2 * a]
\* Temam's face form: v1 : -u1 u2, v2 : +u1 u1 (times 1/2)
TFace(a, b) == [integ |-> "tface", kind |-> 1, nd1 |-> 1, nd2 |-> 1, dim |-> 1, x |-> <<a, b>>, F |-> <<-(a * b), a * a>>, const |-> FALSE, c |-> <<0>>, cN |-> 0]
\* Temam's element form, one dimension, linear element, mid-point rule: u' u v - u u v'
TElem(a, b) == LET m == a + b  d == b - a IN
  [integ |-> "temam", kind |-> 0, nd1 |-> 2, nd2 |-> 0, dim |-> 1, x |-> <<a, b>>, F |-> <<m * d + m * m, m * d - m * m>>, const |-> FALSE, c |-> <<0>>, cN |-> 0]
ASSUME \A a, b \in (-M)..M : Law(Face(a, b)) /\ Law(TFace(a, b)) /\ Law(TElem(a, b))
Right(i) == IF i = 3 THEN 1 ELSE i + 1
Left(i) == IF i = 1 THEN 3 ELSE i - 1
Res(v) == [i \in Cells |-> -Flux2(v[i], v[Right(i)], 1) - Flux2(v[i], v[Left(i)], -1)]
Init == u \in [Cells -> (-M)..M] /\ n = 0 /\ total = u[1] + u[2] + u[3]
Next == n < Steps /\ n' = n + 1 /\ u' = [i \in Cells |-> u[i] + Res(u)[i]] /\ UNCHANGED total
Spec == Init /\ [][Next]_vars
Conserved == u[1] + u[2] + u[3] = total
Uniform == (u[1] = u[2] /\ u[2] = u[3]) => Steady(<<Res(u)[1], Res(u)[2], Res(u)[3]>>)
=============================================================================
