----------------------------- MODULE LinAlgMC -----------------------------
(* Loops that accumulate in any order, and the laws that tie the operations together. *)
EXTENDS LinAlg
Vals == {-1, 0, 2}
VARIABLES M, x, y, todo, acc
vars == <<M, x, y, todo, acc>>
V2 == [1..2 -> Vals]
M2 == [1..2 -> V2]
RowSets == {<<1>>, <<2>>, <<1, 2>>, <<2, 1>>, <<2, 2>>}
Init == M \in M2 /\ x \in V2 /\ y \in V2 /\ todo = (1..2) \X (1..2) /\ acc = y
Step == \E t \in todo : todo' = todo \ {t} /\ acc' = [acc EXCEPT ![t[1]] = @ + M[t[1]][t[2]] * x[t[2]]] /\ UNCHANGED <<M, x, y>>
Spec == Init /\ [][Step]_vars /\ WF_vars(Step)
\* whatever the order, y + M x
Sums == todo = {} => acc = VAdd(y, Mul(M, x))
Adjoint == \A r \in RowSets : Len(r) = 2 => Dot(Mul(Pick(M, r), x), y) = Dot(x, MulT(Pick(M, r), y))
Galerkin == RAP(M, M, M)[1][2] = Dot(Mul(M, Col(M, 2)), Col(M, 1))
T == [i \in 1..2 |-> [j \in 1..2 |-> [k \in 1..2 |-> M[i][j] + k * x[i]]]]
Contractions == /\ Contract(T, x, y) = Mul(OnJt(T, y), x) /\ Contract(T, x, y) = Mul(OnIt(T, x), y)
                /\ OnJt(T, y) = [k \in 1..2 |-> Col(OnJ(T, y), k)]
Ends == <>(todo = {})
=============================================================================
