------------------------------ MODULE Coupling ------------------------------
(* The interface form: ports join pairs of meshes face by face; every face     *)
(* integrator contributes a 2 x 2 block of element matrices (or two element     *)
(* vectors) to the degrees of freedom of the two adjacent elements.  The form   *)
(* only ever ADDS these contributions to what the caller already holds.         *)
EXTENDS Integers, Sequences, FiniteSets, TLC
VARIABLES topo,   \* [nm, trial offsets, ports : sequence of [m1, m2, f : sequence of faces]]
          itg,    \* integrators added so far
          mats    \* the caller's block matrix: sparse function <<i, j, r, c>> -> integer
cvars == <<topo, itg, mats>>

RECURSIVE SumSeq(_, _)
SumSeq(s, i) == IF i > Len(s) THEN 0 ELSE s[i] + SumSeq(s, i + 1)
Sum(s) == SumSeq(s, 1)

\* The integrators used for the check: integer element contributions depending on everything an
\* integrator is told (its own identity, the two sides, the local indices, the two elements).
Val(t, s, u, a, b, f) == ((a * 3 + b * 5 + s * 7 + u * 11 + f.e[1] * 2 + f.e[2] * 13 + t * 17) % 19) - 9
Quad(t, s, a, f) == ((a * 5 + s * 3 + f.e[1] * 7 + f.e[2] * 2 + t * 11) % 7) - 3

Mesh(p, s) == IF s = 1 THEN p.m1 ELSE p.m2
\* a face: e = the two elements, t[s] = test dofs of side s, d[s] = trial dofs; pos of a dof in a list or 0
Pos(list, x) == LET S == {i \in 1..Len(list) : list[i] = x} IN IF S = {} THEN 0 ELSE CHOOSE i \in S : TRUE

\* element contribution of integrator t at face f: block (s, u), local entry (a, b); x = <<x1, x2>> local
Linear(t, f, s, u, a, b, x) == Val(t, s, u, a, b, f)
Tangent(t, f, s, u, a, b, x) == Val(t, s, u, a, b, f) + (IF s = u /\ a = b THEN 2 * Quad(t, s, a, f) * x[s][a] ELSE 0)

\* the local values of a global block vector x (sequence of blocks) at a face
Local(p, f, x) == [s \in 1..2 |-> [a \in 1..Len(f.d[s]) |-> x[Mesh(p, s)][f.d[s][a]]]]

Residual(t, f, s, a, xl) ==
  Sum([u \in 1..2 |-> Sum([b \in 1..Len(f.d[u]) |-> Val(t, s, u, a, b, f) * xl[u][b]])]) + Quad(t, s, a, f) * xl[s][a] * xl[s][a]

\* entries touched by one face of port p: set of <<i, j, r, c>>
FaceKeys(p, f) == UNION {{<<Mesh(p, s), Mesh(p, u), f.t[s][a], f.d[u][b]>> : a \in 1..Len(f.t[s]), b \in 1..Len(f.d[u])} : s \in 1..2, u \in 1..2}
Keys(ports) == UNION {UNION {FaceKeys(ports[p], ports[p].f[k]) : k \in 1..Len(ports[p].f)} : p \in 1..Len(ports)}
\* contribution of one face to one entry
FaceEntry(p, f, k, its, El(_, _, _, _, _, _, _), xl) ==
  Sum([s \in 1..2 |-> Sum([u \in 1..2 |->
    IF Mesh(p, s) # k[1] \/ Mesh(p, u) # k[2] THEN 0
    ELSE LET a == Pos(f.t[s], k[3])
             b == Pos(f.d[u], k[4])
         IN  IF a = 0 \/ b = 0 THEN 0 ELSE Sum([n \in 1..Len(its) |-> El(its[n], f, s, u, a, b, xl)])])])
PortEntry(p, k, its, El(_, _, _, _, _, _, _), xp) ==
  IF k[1] \in {p.m1, p.m2} /\ k[2] \in {p.m1, p.m2}
  THEN Sum([n \in 1..Len(p.f) |-> FaceEntry(p, p.f[n], k, its, El, xp[n])]) ELSE 0
NoX(p) == [n \in 1..Len(p.f) |-> <<>>]
At(M, k) == IF k \in DOMAIN M THEN M[k] ELSE 0
\* M plus the contributions of all ports
Plus(M, ports, its, El(_, _, _, _, _, _, _), xs) ==
  [k \in DOMAIN M \cup Keys(ports) |-> At(M, k) + Sum([p \in 1..Len(ports) |-> PortEntry(ports[p], k, its, El, xs[p])])]
Zeros(ports) == [p \in 1..Len(ports) |-> NoX(ports[p])]
Locals(ports, x) == [p \in 1..Len(ports) |-> [n \in 1..Len(ports[p].f) |-> Local(ports[p], ports[p].f[n], x)]]
SameMat(M, N) == \A k \in DOMAIN M \cup DOMAIN N : At(M, k) = At(N, k)
\* y (sequence of blocks) plus the residual of x
MultEntry(ports, its, xs, i, r) ==
  Sum([p \in 1..Len(ports) |-> IF i \notin {ports[p].m1, ports[p].m2} THEN 0 ELSE
    Sum([n \in 1..Len(ports[p].f) |-> LET f == ports[p].f[n] IN Sum([s \in 1..2 |->
      IF Mesh(ports[p], s) # i THEN 0 ELSE LET a == Pos(f.t[s], r) IN
        IF a = 0 THEN 0 ELSE Sum([m \in 1..Len(its) |-> Residual(its[m], f, s, a, xs[p][n])])])])])
Mult(ports, its, x, y) == LET xs == Locals(ports, x) IN [i \in 1..Len(y) |-> [r \in 1..Len(y[i]) |-> y[i][r] + MultEntry(ports, its, xs, i, r)]]

Empty == [k \in {} |-> 0]
Begin(tp) == topo' = tp /\ itg' = <<>> /\ mats' = Empty
AddIntegrator(t) == itg' = Append(itg, t) /\ UNCHANGED <<topo, mats>>
Fresh(M) == mats' = M /\ UNCHANGED <<topo, itg>>
Assemble == mats' = Plus(mats, topo.ports, itg, Linear, Zeros(topo.ports)) /\ UNCHANGED <<topo, itg>>
Gradient(x) == mats' = Plus(mats, topo.ports, itg, Tangent, Locals(topo.ports, x)) /\ UNCHANGED <<topo, itg>>
AddMult(x, y, y2) == y2 = Mult(topo.ports, itg, x, y) /\ UNCHANGED cvars
\* a reference port as a port between (copies of) its two components, blocks 1 and 2
AtPort(p, M) == SameMat(M, Plus(Empty, <<p>>, itg, Linear, Zeros(<<p>>))) /\ UNCHANGED cvars
=============================================================================
