------------------------------ MODULE Minimise ------------------------------
(* Minimising |F(x) - b| by a sequence of iterates.                          *)
(* q is the residual of the current iterate relative to the starting one, in *)
(* units of 1/SCALE; a system with data A, b is the linear one F(x) = A x.   *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS SCALE, XS     \* units of residuals and of solutions
VARIABLES phase, q, n, sys
mvars == <<phase, q, n, sys>>
Abs(x) == IF x < 0 THEN -x ELSE x
RECURSIVE Sum(_, _)
Sum(f, k) == IF k = 0 THEN 0 ELSE Sum(f, k - 1) + f[k]
Dot(u, v) == Sum([i \in 1..Len(u) |-> u[i] * v[i]], Len(u))
\* A' (A X - XS b) for a solution X in units of 1/XS
Normal(A, b, X) == LET r == [i \in 1..Len(A) |-> Dot(A[i], X) - XS * b[i]]
                   IN  [j \in 1..Len(X) |-> Sum([i \in 1..Len(A) |-> A[i][j] * r[i]], Len(A))]
Stationary(A, b, X, tol) == \A j \in 1..Len(X) : Abs(Normal(A, b, X)[j]) <= tol

MInit == phase = "idle" /\ q = 0 /\ n = 0 /\ sys = <<>>
\* a system with a bound on the number of iterations and, when linear, its data
Start(s) == phase = "idle" /\ phase' = "run" /\ q' = SCALE /\ n' = 0 /\ sys' = s
\* the iterate the next line search starts from is at least as good as the one before
Iterate(r) == phase = "run" /\ r <= q + 1 /\ q' = r /\ n' = n + 1 /\ UNCHANGED <<phase, sys>>
\* the end: X the solution returned, conv what the solver says, meets/below: the residual
\* meets the tolerances with a little slack / with a little to spare
Finish(r, X, conv, meets, below) ==
  /\ phase = "run" /\ r <= q + 1
  /\ conv => meets
  /\ below => conv
  /\ n <= sys.max + 1                                    \* the start and at most max more
  /\ sys.solvable => conv                                \* well-conditioned, solvable, enough iterations
  /\ (sys.linear /\ sys.enough /\ ~conv) => Stationary(sys.A, sys.b, X, sys.tol)
  /\ phase' = "idle" /\ q' = r /\ UNCHANGED <<n, sys>>
=============================================================================
