---------------------------- MODULE MinimiseMC ----------------------------
(* All runs on a small system with every residual level: the residual never  *)
(* rises, a reported success is one, a success is reported, the number of    *)
(* iterates is bounded, and only the least-squares solution is stationary.   *)
EXTENDS Minimise, TLC
VARIABLES conv, first, tol
A0 == <<<<4, 1>>, <<-1, 5>>, <<1, 0>>>>
b0 == <<6, 9, 1>>
Sy == [max |-> 3, linear |-> TRUE, enough |-> TRUE, solvable |-> FALSE, tol |-> 0, A |-> A0, b |-> b0]
Xs == {<<i, j>> : i, j \in 0..4}
vs == <<mvars, conv, first, tol>>
Init == MInit /\ conv = FALSE /\ first = 0 /\ tol = 1
Next == \/ Start(Sy) /\ conv' = FALSE /\ first' = SCALE /\ UNCHANGED tol
        \/ \E r \in 0..SCALE : Iterate(r) /\ UNCHANGED <<conv, first, tol>>
        \/ \E r \in 0..SCALE, X \in Xs, cv \in BOOLEAN : Finish(r, X, cv, r <= tol, r <= tol) /\ conv' = cv /\ UNCHANGED <<first, tol>>
Spec == Init /\ [][Next]_vs
Bound == n <= 5
Success == phase = "idle" /\ n > 0 => (conv <=> q <= tol)
Never == q <= first + n + 1
Down == [][phase = "run" => q' <= q + 1]_vs
\* the normal equations have exactly one solution, (1, 2)
ASSUME A == \A X \in Xs : Stationary(A0, <<6, 9, 1>>, X, 0) <=> (X[1] = XS /\ X[2] = 2 * XS)
===========================================================================
