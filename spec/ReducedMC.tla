------------------------------ MODULE ReducedMC -----------------------------
(* Why every building level must agree: small integer models of an assembled operator.             *)
EXTENDS Reduced, Randomization
CONSTANTS NSub, Samples
VARIABLES built, done
\* --- algebra ----------------------------------------------------------------------------------
\* subdomains have two unknowns, bases two vectors (orthogonal: exchange or change of sign) or one
Sq(V) == [1..2 -> [1..2 -> V]]
Bases == { << <<1, 0>>, <<0, 1>> >>, << <<0, 1>>, <<1, 0>> >>, << <<-1, 0>>, <<0, 1>> >>, << <<0, -1>>, <<1, 0>> >> }   \* columns
One1 == { << <<1, 0>> >>, << <<0, -1>> >> }
Proj(P, A, Q) == [i \in 1..Len(P) |-> [j \in 1..Len(Q) |-> P[i][1] * (A[1][1] * Q[j][1] + A[1][2] * Q[j][2]) + P[i][2] * (A[2][1] * Q[j][1] + A[2][2] * Q[j][2])]]
Add2(A, C) == [i \in 1..Len(A) |-> [j \in 1..Len(A[i]) |-> A[i][j] + C[i][j]]]
Zero2 == << <<0, 0>>, <<0, 0>> >>
\* types of subdomains (components), ports between neighbours, boundary kinds that count
Pick(S) == CHOOSE x \in RandomSubset(1, S) : TRUE
M0 == [type |-> Pick([1..NSub -> 1..2]), bdr |-> Pick([1..NSub -> BOOLEAN]),
       comp |-> <<Pick(Sq({0, 1, 3})), Pick(Sq({0, 1, 3}))>>, side |-> <<Pick(Sq({0, 2})), Pick(Sq({0, 2}))>>,
       port |-> [c \in 1..2 |-> [d \in 1..2 |-> [i \in 1..2 |-> [j \in 1..2 |-> Pick(Sq({0, -1}))]]]]]
Basis0 == <<Pick(Bases \cup One1), Pick(Bases \cup One1)>>
\* blocks of the assembled operator; port p joins p and p + 1
Blocks(M, a, b) ==
  LET own == IF a # b THEN Zero2 ELSE Add2(M.comp[M.type[a]], IF M.bdr[a] THEN M.side[M.type[a]] ELSE Zero2)
      left == IF a = b /\ a > 1 THEN M.port[M.type[a - 1]][M.type[a]][2][2] ELSE IF b = a - 1 THEN M.port[M.type[b]][M.type[a]][2][1] ELSE Zero2
      right == IF a = b /\ a < NSub THEN M.port[M.type[a]][M.type[a + 1]][1][1] ELSE IF b = a + 1 THEN M.port[M.type[a]][M.type[b]][1][2] ELSE Zero2
  IN Add2(own, Add2(left, right))
\* the same from elements projected once per component, side and port
Elements(M, Bs, a, b) ==
  LET Pa == Bs[M.type[a]] Pb == Bs[M.type[b]]
      z == Proj(Pa, Zero2, Pb)
      own == IF a # b THEN z ELSE Add2(Proj(Pa, M.comp[M.type[a]], Pb), IF M.bdr[a] THEN Proj(Pa, M.side[M.type[a]], Pb) ELSE z)
      left == IF a = b /\ a > 1 THEN Proj(Pa, M.port[M.type[a - 1]][M.type[a]][2][2], Pb) ELSE IF b = a - 1 THEN Proj(Pa, M.port[M.type[b]][M.type[a]][2][1], Pb) ELSE z
      right == IF a = b /\ a < NSub THEN Proj(Pa, M.port[M.type[a]][M.type[a + 1]][1][1], Pb) ELSE IF b = a + 1 THEN Proj(Pa, M.port[M.type[a]][M.type[b]][1][2], Pb) ELSE z
  IN Add2(own, Add2(left, right))
Agree(M, Bs) == \A a, b \in 1..NSub : Elements(M, Bs, a, b) = Proj(Bs[M.type[a]], Blocks(M, a, b), Bs[M.type[b]])
\* Galerkin: a solution within the bases solves the projected problem with the projected data
Lift(P, y) == [i \in 1..2 |-> IF Len(P) = 1 THEN P[1][i] * y[1] ELSE P[1][i] * y[1] + P[2][i] * y[2]]
Down(P, x) == [i \in 1..Len(P) |-> P[i][1] * x[1] + P[i][2] * x[2]]
Ap(A, x) == [i \in 1..Len(A) |-> IF Len(A[i]) = 1 THEN A[i][1] * x[1] ELSE A[i][1] * x[1] + A[i][2] * x[2]]
RECURSIVE SumTo(_, _, _)
SumTo(f(_), n, i) == IF n = 0 THEN 0 ELSE f(n)[i] + SumTo(f, n - 1, i)
Galerkin(M, Bs, y) == \A a \in 1..NSub :
   LET P == Bs[M.type[a]]
       red(b) == Ap(Elements(M, Bs, a, b), y[b])
       whole(b) == Ap(Blocks(M, a, b), Lift(Bs[M.type[b]], y[b]))
       rhs == [i \in 1..2 |-> SumTo(whole, NSub, i)]
   IN \A i \in 1..Len(P) : SumTo(red, NSub, i) = Down(P, rhs)[i]
Coeffs == [1..NSub -> {<<1, 2>>, <<-1, 1>>, <<3, 0>>}]
ASSUME \A n \in 1..Samples : LET R == <<M0, Basis0>> IN \A x \in {R} : Agree(x[1], x[2])
ASSUME \A n \in 1..Samples : LET R == <<M0, Basis0, Pick(Coeffs)>> IN \A x \in {R} : Galerkin(x[1], x[2], x[3])
\* a basis that spans everything loses nothing: lifting and going down are inverse
ASSUME \A P \in Bases, y \in {<<1, 2>>, <<-3, 1>>} : Down(P, Lift(P, y)) = y /\ Lift(P, Down(P, y)) = y
\* --- stages -----------------------------------------------------------------------------------
\* problems differ in the kinds of their two sides; component layouts and others
TypesOf == <<<<"dirichlet", "neumann">>, <<"zero", "neumann">>, <<"neumann", "dirichlet">>>>
B(c) == [pde |-> "poisson", comp |-> c, types |-> TypesOf]
\* what a file holds: the essential conditions of the problem at build (whole), nothing of them (elements)
Init == built = [x \in {"global", "component"} |-> 0] /\ done = {}
Build(level, k, c) == CanBuild(B(c), level) /\ built' = [built EXCEPT ![level] = k] /\ UNCHANGED done
\* the conditions in force in a run: those of the operator, and those of the data
Conditions(level, k) == IF level = "global" THEN Kinds(TypesOf[built[level]]) ELSE Kinds(TypesOf[k])
Run(level, k) == CanRun(built, level) /\ done' = done \cup {<<level, k, Conditions(level, k)>>} /\ UNCHANGED built
Next == \E level \in Levels, k \in 1..3 : Run(level, k) \/ (level # "none" /\ \E c \in BOOLEAN : Build(level, k, c))
Spec == Init /\ [][Next]_<<built, done>>
\* a run that fits has the conditions of its own problem; without a stored operator every run does
Right == \A level \in Levels, k \in 1..3 : (CanRun(built, level) /\ Fits(B(TRUE), built, level, k)) => Conditions(level, k) = Kinds(TypesOf[k])
Ever == \A d \in done : d[1] # "global" => d[3] = Kinds(TypesOf[d[2]])
=============================================================================
