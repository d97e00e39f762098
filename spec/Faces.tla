------------------------------- MODULE Faces -------------------------------
(* Both sides of an interface face.  A face is parametrised by a reference     *)
(* cell; each side maps a reference point into its element and on to physical  *)
(* space.  The two parametrisations have to agree point by point: side 2's own  *)
(* numbering of the face's vertices is corrected by a relative orientation.     *)
EXTENDS Integers, Sequences, FiniteSets, TLC
\* coordinates are scaled integers, rounded: equal up to 2 units
Near(a, b) == Len(a) = Len(b) /\ \A i \in 1..Len(a) : a[i] - b[i] \in (-2)..2
Abs(x) == IF x < 0 THEN -x ELSE x
RECURSIVE Dot(_, _, _)
Dot(a, b, i) == IF i > Len(a) THEN 0 ELSE a[i] * b[i] + Dot(a, b, i + 1)
Matches(f) ==
  /\ Len(f.x1) = Len(f.x2)
  /\ \A i \in 1..Len(f.x1) : Near(f.x1[i], f.x2[i])    \* the same physical points
  /\ Len(f.x0) = Len(f.x1) /\ \A i \in 1..Len(f.x1) : Near(f.x0[i], f.x1[i])    \* and so does the face itself, seen from side 1
  \* the vertices of the reference cell go to the vertices of the boundary elements linked
  /\ \A i \in 1..f.nv : (\E j \in 1..f.nv : Near(f.x1[i], f.be1[j])) /\ (\E j \in 1..f.nv : Near(f.x2[i], f.be2[j]))
  /\ \A j \in 1..f.nv : (\E i \in 1..f.nv : Near(f.x1[i], f.be1[j])) /\ (\E i \in 1..f.nv : Near(f.x2[i], f.be2[j]))
  \* opposite normals of the same length, pointing away from side 1 (in units of 1/64 to stay small)
  /\ \A i \in 1..Len(f.n1) : \A d \in 1..Len(f.n1[i]) : f.n1[i][d] + f.n2[i][d] \in (-3)..3
  /\ \A i \in 1..Len(f.n1) : Dot([d \in 1..Len(f.c) |-> f.x1[i][d] \div 1024 - f.c[d]], [d \in 1..Len(f.c) |-> f.n1[i][d] \div 256], 1) > 0
=============================================================================
