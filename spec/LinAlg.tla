------------------------------- MODULE LinAlg -------------------------------
(* Dense linear algebra over the integers: vectors are sequences, matrices      *)
(* sequences of rows, third-order tensors T[i][j][k].                           *)
EXTENDS Integers, Sequences, FiniteSets, TLC
RECURSIVE SumTo(_, _)
SumTo(F(_), n) == IF n = 0 THEN 0 ELSE F(n) + SumTo(F, n - 1)
Rows(M) == Len(M)
Cols(M) == IF Len(M) = 0 THEN 0 ELSE Len(M[1])
Dot(x, y) == LET F(i) == x[i] * y[i] IN SumTo(F, Len(x))
Col(M, j) == [i \in 1..Rows(M) |-> M[i][j]]
Mul(M, x) == [i \in 1..Rows(M) |-> Dot(M[i], x)]
MulT(M, x) == [j \in 1..Cols(M) |-> Dot(Col(M, j), x)]
Pick(M, rows) == [r \in 1..Len(rows) |-> M[rows[r]]]
VAdd(x, y) == [i \in 1..Len(x) |-> x[i] + y[i]]
MAdd(A, B) == [i \in 1..Rows(A) |-> VAdd(A[i], B[i])]
MScale(w, A) == [i \in 1..Rows(A) |-> [j \in 1..Cols(A) |-> w * A[i][j]]]
\* R^T A P
RAP(R, A, P) == [i \in 1..Cols(R) |-> [j \in 1..Cols(P) |-> Dot(Col(R, i), Mul(A, Col(P, j)))]]
Zero(m, n) == [i \in 1..m |-> [j \in 1..n |-> 0]]
TI(T) == Len(T)
TJ(T) == Len(T[1])
TK(T) == Len(T[1][1])
\* y_k = T_ijk x_i z_j and the partial contractions
Contract(T, x, z) == [k \in 1..TK(T) |-> LET F(i) == LET G(j) == T[i][j][k] * x[i] * z[j] IN SumTo(G, TJ(T)) IN SumTo(F, TI(T))]
OnK(T, x) == [i \in 1..TI(T) |-> [j \in 1..TJ(T) |-> LET F(k) == T[i][j][k] * x[k] IN SumTo(F, TK(T))]]
OnJ(T, x) == [i \in 1..TI(T) |-> [k \in 1..TK(T) |-> LET F(j) == T[i][j][k] * x[j] IN SumTo(F, TJ(T))]]
OnIt(T, x) == [k \in 1..TK(T) |-> [j \in 1..TJ(T) |-> LET F(i) == T[i][j][k] * x[i] IN SumTo(F, TI(T))]]
OnJt(T, x) == [k \in 1..TK(T) |-> [i \in 1..TI(T) |-> LET F(j) == T[i][j][k] * x[j] IN SumTo(F, TJ(T))]]
=============================================================================
