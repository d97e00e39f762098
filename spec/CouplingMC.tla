----------------------------- MODULE CouplingMC -----------------------------
(* Two ports in a row of three meshes (or two ports between the same meshes), every order of     *)
(* operations: the tangent is the derivative of the residual (exactly: the residual is quadratic), *)
(* a linear form's action is its matrix, assembling port by port adds up to assembling at once.    *)
EXTENDS Coupling
CONSTANT Steps
VARIABLES n, last
vars == <<topo, itg, mats, n, last>>
Faces1 == {<<>>, <<[e |-> <<1, 2>>, t |-> <<<<1, 2>>, <<2, 1>>>>, d |-> <<<<1, 2>>, <<2, 1>>>>]>>,
           <<[e |-> <<1, 1>>, t |-> <<<<1>>, <<2>>>>, d |-> <<<<1>>, <<2>>>>], [e |-> <<2, 1>>, t |-> <<<<1, 2>>, <<2>>>>, d |-> <<<<1, 2>>, <<2>>>>]>>}
Topos == {[ports |-> <<[m1 |-> 1, m2 |-> 2, f |-> a], [m1 |-> q[1], m2 |-> q[2], f |-> b]>>] : a \in Faces1, b \in Faces1, q \in {<<2, 3>>, <<3, 2>>, <<3, 1>>, <<1, 2>>, <<2, 1>>}}
Xs == {<<<<1, -2>>, <<3, 1>>, <<0, -1>>>>, <<<<2, 2>>, <<-3, 0>>, <<4, 1>>>>}
Init == topo \in Topos /\ itg = <<>> /\ mats = Empty /\ n = 0 /\ last = [op |-> "none"]
Next == n < Steps /\ n' = n + 1 /\
  \/ \E t \in 1..2 : AddIntegrator(t) /\ last' = [op |-> "add"]
  \/ Assemble /\ last' = [op |-> "mats", old |-> mats]
  \/ \E x \in Xs : Gradient(x) /\ last' = [op |-> "grad", old |-> mats, x |-> x]
  \/ Fresh(Empty) /\ last' = [op |-> "fresh"]
Spec == Init /\ [][Next]_vars
All == {<<i, j, r, c>> : i \in 1..3, j \in 1..3, r \in 1..2, c \in 1..2}
Y0 == [i \in 1..3 |-> <<0, 0>>]
F(x) == Mult(topo.ports, itg, x, Y0)
VPlus(x, y) == [i \in 1..3 |-> [r \in 1..2 |-> x[i][r] + y[i][r]]]
Apply(M, x) == [i \in 1..3 |-> [r \in 1..2 |-> Sum([j \in 1..3 |-> Sum([c \in 1..2 |-> At(M, <<i, j, r, c>>) * x[j][c]])])]]
Diff(M, N) == [k \in DOMAIN M \cup DOMAIN N |-> At(M, k) - At(N, k)]
Neg(x) == [i \in 1..3 |-> [r \in 1..2 |-> -x[i][r]]]
\* F quadratic: F(x + h) - F(x - h) = 2 F'(x) h
IsDerivative == last.op = "grad" => \A h \in Xs :
  LET G == Apply(Diff(mats, last.old), h)
      A == F(VPlus(last.x, h))
      B == F(VPlus(last.x, Neg(h)))
  IN  \A i \in 1..3 : \A r \in 1..2 : A[i][r] - B[i][r] = 2 * G[i][r]
\* the linear part: F(x) - F(-x) = 2 A x
IsMatrix == last.op = "mats" => \A x \in Xs :
  LET G == Apply(Diff(mats, last.old), x)
  IN  \A i \in 1..3 : \A r \in 1..2 : F(x)[i][r] - F(Neg(x))[i][r] = 2 * G[i][r]
PortByPort == SameMat(Plus(mats, topo.ports, itg, Linear, Zeros(topo.ports)),
                      Plus(Plus(mats, <<topo.ports[2]>>, itg, Linear, Zeros(<<topo.ports[2]>>)), <<topo.ports[1]>>, itg, Linear, Zeros(<<topo.ports[1]>>)))
\* meshes joined by no port stay uncoupled
Sparse == last.op \in {"mats", "grad"} => \A k \in All : At(mats, k) # At(last.old, k) => \E p \in 1..2 : {k[1], k[2]} \subseteq {topo.ports[p].m1, topo.ports[p].m2}
=============================================================================
