------------------------------- MODULE Ortho -------------------------------
(* Orthonormalisation.  The columns of A are made orthonormal, in order, each   *)
(* inside the span of itself and its predecessors (and of the reference columns  *)
(* B, mutually orthogonal but not normalised, to which all become orthogonal).    *)
(* Q is recorded in fixed point, Q[i][j] = S times the value.                      *)
EXTENDS LinAlg
CONSTANT S
Abs(x) == IF x < 0 THEN -x ELSE x
Near(x, y, tol) == Abs(x - y) <= tol
\* exact Gram-Schmidt without roots, in fractions: column j minus its projections (numerator vector, denominator)
Sc(v, k) == [i \in 1..Len(v) |-> k * v[i]]
RECURSIVE Strip(_, _)
\* a vector parallel (same direction) to v minus its projections on the mutually orthogonal vectors us
Strip(v, us) == IF us = <<>> THEN v ELSE LET u == Head(us) IN Strip(VAdd(Sc(v, Dot(u, u)), Sc(u, -Dot(u, v))), Tail(us))
RECURSIVE GS(_, _, _)
GS(cs, done, base) == IF cs = <<>> THEN done ELSE GS(Tail(cs), Append(done, Strip(Head(cs), base \o done)), base)
Columns(A) == [j \in 1..Cols(A) |-> Col(A, j)]
\* tolerance of a dot product of n terms of two fixed-point unit vectors (rounding of each entry by 1/2)
Tol(n) == n * (S + 1) + 40
Orthonormal(Q) == \A i, j \in 1..Cols(Q) : Near(Dot(Col(Q, i), Col(Q, j)), IF i = j THEN S * S ELSE 0, Tol(Rows(Q)))
\* R = transpose(Q) A, in fixed point
R(Q, A) == [i \in 1..Cols(Q) |-> [j \in 1..Cols(A) |-> Dot(Col(Q, i), Col(A, j))]]
M(A) == CHOOSE m \in 0..200 : \A i \in 1..Rows(A), j \in 1..Cols(A) : Abs(A[i][j]) <= m
Triangular(Q, A, m) == \A i, j \in 1..Cols(Q) : (i > j => Near(R(Q, A)[i][j], 0, m * Rows(A) + 4)) /\ (i = j => R(Q, A)[i][i] > m * Rows(A))
RECURSIVE Proj(_, _, _, _)
\* entry i of the projection of v on the columns 1..k of B, times S*S
Proj(B, v, i, k) == IF k = 0 THEN 0 ELSE Proj(B, v, i, k - 1) + (S * S * B[i][k] * Dot(Col(B, k), v)) \div Dot(Col(B, k), Col(B, k))
Rebuilds(Q, A, B, m) == LET RR == R(Q, A) IN \A i \in 1..Rows(A), j \in 1..Cols(A) :
    Near(S * S * A[i][j], Dot(Q[i], Col(RR, j)) + Proj(B, Col(A, j), i, IF B = <<>> THEN 0 ELSE Len(B[1])), (m * Rows(A) + 4) * S * 3)
Apart(Q, B, m) == B = <<>> \/ \A i \in 1..Cols(Q), k \in 1..Len(B[1]) : Near(Dot(Col(Q, i), Col(B, k)), 0, m * Rows(Q) + 4)
\* B = <<>> stands for no reference columns
Result(Q, A, B, m) == /\ Rows(Q) = Rows(A) /\ Cols(Q) = Cols(A)
                      /\ Orthonormal(Q) /\ Apart(Q, B, m)
                      /\ (B = <<>> => Triangular(Q, A, m))
                      /\ Rebuilds(Q, A, B, m)
=============================================================================
