----------------------------- MODULE WeakFormsMC -----------------------------
(* Exact small instance: quadratic integrands w_q N_q (N_q . x)^2.  Samples are added to the     *)
(* reduced accumulators in any order; once every point was added with its own weight, they hold    *)
(* the projected full residual and Jacobian, and the latter is the derivative of the former.       *)
EXTENDS WeakForms, FiniteSets
VARIABLES y, j, done, arg
vars == <<args, y, j, done, arg>>
N == << <<1, 2, -1>>, <<0, 1, 3>>, <<2, -1, 1>> >>
W == <<1, 3, -2>>
Dot(a, b) == Sum([i \in 1..Len(a) |-> a[i] * b[i]])
PQ(q, x) == Times(W[q] * Dot(N[q], x) * Dot(N[q], x), N[q])
DQ(q, x, v) == Times(2 * W[q] * Dot(N[q], x) * Dot(N[q], v), N[q])
Bs == {<< <<1, 0>>, <<-1, 2>>, <<1, 1>> >>, << <<1>>, <<2>>, <<0>> >>}
Coef == {-1, 1, 2}
MkArg(B, c, z) == LET x == MultB(B, c) v == MultB(B, z)
                  IN  [B |-> B, xr |-> c, z |-> z, P |-> [q \in 1..3 |-> PQ(q, x)], D |-> [q \in 1..3 |-> DQ(q, x, v)]]
Init == \E B \in Bs : \E c, z \in [1..Len(B[1]) -> Coef] :
        args = <<MkArg(B, c, z)>> /\ arg = 1 /\ done = {} /\ y = [m \in 1..Len(c) |-> 0] /\ j = [m \in 1..Len(c) |-> 0]
Sample(q) == q \notin done /\ done' = done \cup {q} /\ UNCHANGED <<args, arg>>
             /\ y' = Plus(y, Proj(args[1].B, args[1].P[q])) /\ j' = Plus(j, Proj(args[1].B, args[1].D[q]))
Next == \E q \in 1..3 : Sample(q)
Spec == Init /\ [][Next]_vars
FB(c) == Proj(args[1].B, Total(MkArg(args[1].B, c, c).P))
Neg(c) == [m \in 1..Len(c) |-> -c[m]]
AllSampled == done = 1..3 => /\ y = Proj(args[1].B, Total(args[1].P)) /\ j = Proj(args[1].B, Total(args[1].D))
                             /\ Plus(FB(Plus(args[1].xr, args[1].z)), Neg(FB(Plus(args[1].xr, Neg(args[1].z))))) = Times(2, j)
Steps == [][\E q \in 1..3 : FastV(1, q, 1, y, y') /\ FastG(1, q, 1, j, j')]_vars
=============================================================================
