------------------------------ MODULE Smoother ------------------------------
(* Block Gauss-Seidel and block Jacobi over the integers.  A[i][j] are blocks   *)
(* (<<>> when absent), D[i] the exact inverses of the diagonal blocks.          *)
EXTENDS LinAlg
NB(A) == Len(A)
ZeroV(n) == [i \in 1..n |-> 0]
RECURSIVE Less(_, _, _, _, _)
\* b_i minus the contributions of all other blocks j..n
Less(A, y, i, j, acc) == IF j > NB(A) THEN acc
  ELSE Less(A, y, i, j + 1, IF j = i \/ A[i][j] = <<>> THEN acc ELSE VAdd(acc, [r \in 1..Len(acc) |-> -Mul(A[i][j], y[j])[r]]))
\* relaxing block i: exactly solving its rows with the other blocks held
Relax(A, D, b, y, i) == [y EXCEPT ![i] = Mul(D[i], Less(A, y, i, 1, b[i]))]
RECURSIVE Forw(_, _, _, _, _)
Forw(A, D, b, y, i) == IF i > NB(A) THEN y ELSE Forw(A, D, b, Relax(A, D, b, y, i), i + 1)
RECURSIVE Back(_, _, _, _, _)
Back(A, D, b, y, i) == IF i = 0 THEN y ELSE Back(A, D, b, Relax(A, D, b, y, i), i - 1)
\* type 0 symmetric, 1 forward, 2 backward
Sweep(A, D, b, y, type) == LET f == IF type # 2 THEN Forw(A, D, b, y, 1) ELSE y IN IF type # 1 THEN Back(A, D, b, f, NB(A)) ELSE f
RECURSIVE Sweeps(_, _, _, _, _, _)
Sweeps(A, D, b, y, type, k) == IF k = 0 THEN y ELSE Sweeps(A, D, b, Sweep(A, D, b, y, type), type, k - 1)
Jacobi(D, b) == [i \in 1..Len(D) |-> Mul(D[i], b[i])]
Ident(n) == [i \in 1..n |-> [j \in 1..n |-> IF i = j THEN 1 ELSE 0]]
MMul(X, Y) == [i \in 1..Rows(X) |-> [j \in 1..Cols(Y) |-> Dot(X[i], Col(Y, j))]]
Inverses(A, D) == \A i \in 1..NB(A) : MMul(A[i][i], D[i]) = Ident(Rows(D[i]))
\* residual of block row i
Residual(A, b, y, i) == LET s == Less(A, y, i, 1, b[i]) IN [r \in 1..Len(s) |-> s[r] - Mul(A[i][i], y[i])[r]]
=============================================================================
