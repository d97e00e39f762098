------------------------------ MODULE BdrData ------------------------------
(* Boundary data.  Prescribed values enter the right-hand side face by face, in the same way as     *)
(* the operator's boundary terms see the solution: where the solution takes the prescribed values,   *)
(* operator minus right-hand side is the plain flux, whatever the penalty and the symmetry, so the   *)
(* exact solution solves the discrete problem.                                                       *)
EXTENDS Integers, Sequences
CONSTANT Tol
Abs(x) == IF x < 0 THEN -x ELSE x
Near(a, b, s) == Len(a) = Len(b) /\ \A i \in 1..Len(a) : Abs(a[i] - b[i]) <= s
RECURSIVE SumF(_, _)
SumF(f, i) == IF i = 0 THEN 0 ELSE f[i] + SumF(f, i - 1)
Sum(f) == SumF(f, Len(f))
\* a face: e cell, a attribute, b what the boundary term says, ref what the data mean,
\* au the operator's boundary term applied to the data, flux what must be left of it
Says(f) == Near(f.b, f.ref, Tol) /\ Near(f.edge, f.edgeref, Tol)
Consistent(f) == Len(f.au) = Len(f.flux) /\ (Len(f.au) > 0 => Len(f.b) = Len(f.au)) /\ \A i \in 1..Len(f.au) : Abs(f.au[i] - f.b[i] - f.flux[i]) <= Tol
Marked(faces, m, e) == SelectSeq(faces, LAMBDA f : f.e = e /\ f.a \in {m[i] : i \in 1..Len(m)})
\* the assembled vector: every marked face once, nothing else
Assembled(faces, m, y) == \A e \in 1..Len(y) : LET F == Marked(faces, m, e) IN \A a \in 1..Len(y[e]) : Abs(y[e][a] - Sum([k \in 1..Len(F) |-> F[k].ref[a]])) <= Tol * (Len(F) + 1)
=============================================================================
