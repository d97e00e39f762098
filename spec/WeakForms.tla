------------------------------ MODULE WeakForms ------------------------------
(* Nonlinear weak forms on elements, interior faces, boundary faces and interfaces.  An         *)
(* argument (element or face, state x = B xr, direction v = B z) is described by the             *)
(* contributions P[q] of the quadrature points to the residual and D[q] to the Jacobian           *)
(* applied to v.  Whatever has been evaluated before, the full residual is the sum of the point   *)
(* contributions, a point evaluated with weight k times its own contributes k P[q], and the       *)
(* reduced samples add the projections B^T (k P[q]), B^T (k D[q]) to what they are given.          *)
(* Values are integers in units of 1/scale; T is the tolerance of one recorded value.             *)
EXTENDS Integers, Sequences
CONSTANT T
VARIABLE args

RECURSIVE SumF(_, _)
SumF(f, i) == IF i = 0 THEN 0 ELSE f[i] + SumF(f, i - 1)
Sum(f) == SumF(f, Len(f))
Abs(x) == IF x < 0 THEN -x ELSE x
Close(x, y, s) == Abs(x - y) <= s
CloseV(x, y, s) == Len(x) = Len(y) /\ \A i \in 1..Len(x) : Close(x[i], y[i], s)
Total(P) == [i \in 1..Len(P[1]) |-> Sum([q \in 1..Len(P) |-> P[q][i]])]
Times(k, p) == [i \in 1..Len(p) |-> k * p[i]]
Plus(x, y) == [i \in 1..Len(x) |-> x[i] + y[i]]
\* B^T p, and the rounding it can carry
Proj(B, p) == [m \in 1..Len(B[1]) |-> Sum([i \in 1..Len(B) |-> B[i][m] * p[i]])]
ProjSlack(B, m) == T * (Sum([i \in 1..Len(B) |-> Abs(B[i][m])]) + 2)
MultB(B, c) == [i \in 1..Len(B) |-> Sum([m \in 1..Len(c) |-> B[i][m] * c[m]])]

Full(a, y) == CloseV(y, Total(args[a].P), T * (Len(args[a].P) + 1))
Grad(a, y) == CloseV(y, Total(args[a].D), T * (Len(args[a].D) + 1))
Point(a, q, k, y) == CloseV(y, Times(k, args[a].P[q]), T * (Abs(k) + 1))
GPoint(a, q, k, y) == CloseV(y, Times(k, args[a].D[q]), T * (Abs(k) + 1))
Reduced(B, p, k, y0, y) ==
  LET e == Proj(B, p)
  IN  Len(y0) = Len(e) /\ Len(y) = Len(e) /\ \A m \in 1..Len(e) : Close(y[m], y0[m] + k * e[m], Abs(k) * ProjSlack(B, m) + 2 * T)
FastV(a, q, k, y0, y) == Reduced(args[a].B, args[a].P[q], k, y0, y)
FastG(a, q, k, y0, y) == Reduced(args[a].B, args[a].D[q], k, y0, y)
\* the directional difference quotient of the full residual
Deriv(a, y) == CloseV(y, Total(args[a].D), T * (Len(args[a].D) + 8))
=============================================================================
