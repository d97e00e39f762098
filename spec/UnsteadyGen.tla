----------------------------- MODULE UnsteadyGen ---------------------------
EXTENDS Unsteady, Json, Randomization, SequencesExt
CONSTANT NRuns
VARIABLES st, c, files, runs
vs == <<st, c, files, runs>>
One(S) == RandomSubset(1, S)
Init == st = 0 /\ c = [k |-> 0] /\ files = NoFiles /\ runs = <<>>
Exps(A, deg) == {e \in (0..2) \X (0..2) \X (0..2) : Tot(e) <= deg /\ \A d \in 1..3 : d \notin A => e[d] = 0}
R(s, i) == ((((s * 7919) + (i * 10473)) % 99991) * 37 + i) \div 5
Poly(A, deg, s) == LET n == 1 + (R(s, 0) % 4) E == SetToSeq(Exps(A, deg))
                   IN Clean([i \in 1..n |-> [c |-> IF (R(s, i) % 6) < 3 THEN (R(s, i) % 3) - 3 ELSE 1 + (R(s, i) % 3), e |-> E[1 + (R(s, 10 + i) % Len(E))]]])
X(d) == <<[c |-> 1, e |-> [i \in 1..3 |-> IF i = d THEN 1 ELSE 0]]>>
Box == /\ st = 0 /\ st' = 1 /\ UNCHANGED <<files, runs>>
       /\ \E dim \in One({2, 2, 2, 3}), nx \in One(1..3), ny \in One(1..2), tri \in One(BOOLEAN), curv \in One({0, 0, 1}), ns \in One(1..3), style \in One(0..3), seed \in One(1..10000), sh \in One(0..5), sep \in One(BOOLEAN), off \in One(BOOLEAN) :
          c' = [dim |-> dim, nx |-> (IF dim = 3 THEN 1 + (nx % 2) ELSE nx), ny |-> (IF dim = 3 THEN 1 ELSE ny), nz |-> 1, simplex |-> FALSE, curv |-> curv, dist |-> FALSE, ns |-> (IF dim = 3 THEN 1 ELSE ns), style |-> style, seed |-> seed, sep |-> sep,
                 attr |-> [x \in 1..(2 * dim) |-> 1 + ((x + sh) % 6)], late |-> off]
\* velocities along z and beyond (incompressible), free on the low side of z
Vel(dim, z, g, b) == [i \in 1..dim |-> IF i = z THEN Poly((1..dim) \ {z}, 2, g + 3) ELSE IF i > z + 1 THEN <<>> ELSE Sc(b, Times(X(z), X(z)))]
\* any incompressible velocities, to start from
Anything(dim, g) == [i \in 1..dim |-> Poly((1..dim) \ {i}, 2, g + i)]
Zeros(dim) == [i \in 1..dim |-> <<>>]
Side == {[d |-> d, s |-> s] : d \in 1..3, s \in {-1, 1}}
Idx(x) == 2 * (x.d - 1) + (IF x.s = 1 THEN 2 ELSE 1)
Files == {k \in 0..9 : files[k] # None}
Refused == {"bdf", "base", "dt"}
Run == /\ st \in 1..NRuns /\ st' = st + 1 /\ UNCHANGED c
       /\ \E kind \in One(1..8), z0 \in One(1..3), g \in One(1..9999), b \in One(0..3), nu \in One(1..3), zeta \in One(0..2), dd \in One({1, 2, 4, 8}), more \in One(0..4), from \in One(0..9), pickf \in One(1..12),
             save \in One({TRUE, TRUE, TRUE, FALSE}), rint \in One(0..3), vis \in One(BOOLEAN), vint \in One({-1, 0, 1, 2, 3}), si \in One({0, 1, 2}), boot \in One(0..2), samp \in One(BOOLEAN), pick \in One([1..7 -> 0..5]), why \in One(Refused), ic \in One({"given", "given", "pressure", "none"}) :
          LET z == IF z0 > c.dim THEN 1 ELSE z0
              restart == kind > 3 /\ Files # {}
              miss == kind = 8
              have == SetToSeq(Files)
              k0 == IF ~restart THEN 0 ELSE IF miss THEN from ELSE have[1 + (pickf % Len(have))]
              lost == restart /\ files[k0] = None
              s0 == IF ~restart \/ lost THEN 0 ELSE files[k0].step
              jump == kind \in {2, 3, 5, 6}
              st0 == IF ~restart \/ lost THEN (IF ic = "none" THEN [u |-> Zeros(c.dim), q |-> <<>>] ELSE [u |-> (IF ic = "pressure" THEN Zeros(c.dim) ELSE IF jump THEN Anything(c.dim, g + 40) ELSE Vel(c.dim, z, g, b)), q |-> Poly(1..c.dim, 1, g + 50)])
                     ELSE files[k0].f
              \* standing still is possible on fields that leave some side free
              q == IF b = 0 THEN <<>> ELSE Sc(b, X(z))
              free(P) == \E x \in Side : x.d <= c.dim /\ "neumann" \in Allowed(P, {x})
              P0 == [pde |-> "ns", dim |-> c.dim, u |-> st0.u, q |-> q, w |-> <<>>, a |-> 20 * nu, b |-> zeta]
              jmp == jump \/ ~free(P0)
              P == IF jmp THEN [P0 EXCEPT !.u = Vel(c.dim, z, g, b), !.a = nu, !.b = 0] ELSE P0
              nt == IF jmp THEN (IF s0 >= 9 THEN 9 ELSE s0 + 1) ELSE IF s0 + more > 9 THEN 9 ELSE s0 + more
              can(l) == LET i == CHOOSE j \in 1..(2 * c.dim) : c.attr[j] = l IN Allowed(P, {x \in Side : x.d <= c.dim /\ Idx(x) = i})
              ty0 == [l \in 1..7 |-> IF \E j \in 1..(2 * c.dim) : c.attr[j] = l THEN LET a == can(l) IN IF "neumann" \in a /\ pick[l] < 4 THEN "neumann" ELSE IF "zero" \in a /\ pick[l] < 5 THEN "zero" ELSE "dirichlet" ELSE "dirichlet"]
              used == {c.attr[j] : j \in 1..(2 * c.dim)}
              openl == CHOOSE l \in used : "neumann" \in can(l)
              closedl == CHOOSE l \in used : l # openl
              ty1 == IF \A l \in used : ty0[l] # "neumann" THEN [ty0 EXCEPT ![openl] = "neumann"] ELSE ty0
              ty == IF \A l \in used : ty1[l] = "neumann" THEN [ty1 EXCEPT ![closedl] = "dirichlet"] ELSE ty1
              \* fields that vanish are not samples
              smp == samp /\ Clean(P.q) # <<>> /\ \E i \in 1..c.dim : Clean(P.u[i]) # <<>>
              refuse == IF kind = 1 /\ pickf = 1 THEN why ELSE ""
              r == [restart |-> restart, from |-> k0, nt |-> nt, dt |-> 16 \div dd, save |-> save, rint |-> (IF save THEN rint ELSE 0), vis |-> vis, vint |-> vint, si |-> (IF smp THEN si ELSE 0), boot |-> boot, samp |-> smp,
                    P |-> P, ic |-> (IF restart THEN "none" ELSE ic), u0 |-> st0.u, q0 |-> st0.q, jump |-> jmp, d |-> dd, types |-> ty, refuse |-> refuse, src |-> Force(P, st0.u, dd, jmp)]
              val == [k \in 0..9 |-> IF k = s0 THEN st0 ELSE [u |-> P.u, q |-> P.q]]
          IN /\ runs' = Append(runs, r)
             /\ files' = (IF refuse = "" /\ ~lost THEN Left(r, files, val) ELSE files)
Done == st = NRuns + 1 /\ st' = st + 1 /\ PrintT("@@" \o ToJson([c |-> c, runs |-> runs])) /\ UNCHANGED <<c, files, runs>>
Spec == Init /\ [][Box \/ Run \/ Done]_vs
=============================================================================
