------------------------------ MODULE WeakLaws ------------------------------
(* The laws the discrete convection operators keep whatever the mesh and the state: Temam's form  *)
(* does no work (x . F(x) = 0) on elements, interior faces and interfaces, and half the kinetic     *)
(* energy flux on a boundary; the Lax-Friedrichs flux conserves momentum across a face, is          *)
(* consistent with the physical flux, and a uniform flow is a steady solution of the whole          *)
(* (decomposed) convection operator.                                                                *)
(* a: [integ, kind, nd1, nd2, dim, x, F, const, c, cN]; integers in units of 1/scale, T tolerance.   *)
EXTENDS Integers, Sequences
CONSTANT T
RECURSIVE SumF(_, _)
SumF(f, i) == IF i = 0 THEN 0 ELSE f[i] + SumF(f, i - 1)
Sum(f) == SumF(f, Len(f))
Abs(x) == IF x < 0 THEN -x ELSE x
Dot(x, y) == Sum([i \in 1..Len(x) |-> x[i] * y[i]])
Norm1(x) == Sum([i \in 1..Len(x) |-> Abs(x[i])])
Close(x, y, s) == Abs(x - y) <= s
\* total of component d over the element on side 1 / 2
Comp1(a, d) == Sum([i \in 1..a.nd1 |-> a.F[(d - 1) * a.nd1 + i]])
Comp2(a, d) == Sum([i \in 1..a.nd2 |-> a.F[a.dim * a.nd1 + (d - 1) * a.nd2 + i]])

NoWork(a) == Close(Dot(a.x, a.F), 0, T * (Norm1(a.x) + 2))
Conserves(a) == \A d \in 1..a.dim : Close(Comp1(a, d) + Comp2(a, d), 0, T * (a.nd1 + a.nd2 + 1))
\* a constant state c with c . N = cN carries the momentum c (c . N) out of element 1
Consistent(a) == a.const => \A d \in 1..a.dim : Close(Comp1(a, d), -a.c[d] * a.cN, T * (a.nd1 + Abs(a.c[d]) + 2))
HalfFlux(a) == a.const => \A d \in 1..a.dim : Close(2 * Comp1(a, d), a.c[d] * a.cN, T * (2 * a.nd1 + Abs(a.c[d]) + 2))

Law(a) ==
  CASE a.integ = "temam" -> NoWork(a)
    [] a.integ \in {"tface", "tiface"} /\ a.kind \in {1, 3} -> NoWork(a)
    [] a.integ = "tface" /\ a.kind = 2 -> HalfFlux(a)
    [] a.integ = "lf" -> Consistent(a) /\ (a.kind \in {1, 3} => Conserves(a))
    [] OTHER -> TRUE
\* a uniform flow is steady: r = residual of every degree of freedom
Steady(r) == \A i \in 1..Len(r) : Close(r[i], 0, T * 2)
=============================================================================
