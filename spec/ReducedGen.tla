----------------------------- MODULE ReducedGen -----------------------------
EXTENDS Solvers, Json, Randomization, SequencesExt
CONSTANTS NOps, Family
VARIABLES st, Ps, cfg, ops
vs == <<st, Ps, cfg, ops>>
One(S) == RandomSubset(1, S)
Init == st = 0 /\ Ps = <<>> /\ cfg = [k |-> 0] /\ ops = <<>>
Exps(A, deg) == {e \in (0..2) \X (0..2) \X (0..2) : Tot(e) <= deg /\ \A d \in 1..3 : d \notin A => e[d] = 0}
R(s, i) == ((((s * 7919) + (i * 10473)) % 99991) * 37 + i) \div 5
Poly(A, deg, s) == LET n == 1 + (R(s, 0) % 4) E == SetToSeq(Exps(A, deg))
                   IN Clean([i \in 1..n |-> [c |-> IF (R(s, i) % 6) < 3 THEN (R(s, i) % 3) - 3 ELSE 1 + (R(s, i) % 3), e |-> E[1 + (R(s, 10 + i) % Len(E))]]])
X(d) == <<[c |-> 1, e |-> [i \in 1..3 |-> IF i = d THEN 1 ELSE 0]]>>
Ax(dim) == 1..dim
\* a problem of one kind; form and axis z shape its solution
Prob(pde, dim, o, a, b, form, z, w, g) ==
  LET flow == pde \in {"stokes", "ns"}
      scal == IF form = 1 THEN Times(X(z), Poly(Ax(dim), o - 1, g)) ELSE IF form = 2 /\ o = 2 THEN Times(X(z), X(z)) ELSE IF form = 3 THEN Poly(Ax(dim) \ {z}, o, g) ELSE Poly(Ax(dim), o, g + 1)
      shear == [i \in 1..dim |-> IF i = z THEN Poly(Ax(dim) \ {z}, 2, g + 3) ELSE IF form \in {1, 4} \/ i > z + 1 THEN <<>> ELSE Sc(b + 1, Times(X(z), X(z)))]
      u == IF flow THEN shear ELSE IF pde = "linelast" THEN [i \in 1..dim |-> Poly(Ax(dim), o, g + 10 + i)] ELSE <<scal>>
      q == IF ~flow \/ form \in {4, 5} THEN <<>> ELSE Sc(b + 1, X(z))
  IN [pde |-> pde, dim |-> dim, u |-> u, q |-> q, w |-> w, a |-> a, b |-> b]
Start == /\ st = 0 /\ st' = 1 /\ UNCHANGED ops
         /\ \E pde \in One(IF Family = 1 THEN {"poisson", "linelast", "advdiff"} ELSE {"stokes", "stokes", "ns"}), dim \in One({2, 2, 2, 3}), order \in One(1..2), dg \in One(BOOLEAN), lay \in One({"box", "comp", "comp"}), form \in One(1..6), f2 \in One(1..6), ax \in One(1..3), a \in One(1..3), b \in One(0..3), g \in One(1..99000), full \in One(BOOLEAN) :
            LET d == IF Family = 2 THEN 2 ELSE dim
                o == IF Family = 2 THEN 1 ELSE IF d = 3 THEN 1 ELSE order
                z == IF ax > d THEN 1 ELSE ax
                aa == IF pde = "ns" THEN 20 * a ELSE a
                bb == IF pde = "linelast" THEN b + 1 ELSE IF pde = "ns" THEN 1 + (b % 2) ELSE 0
                w == IF pde = "advdiff" THEN [i \in 1..d |-> IF (b % 2) = 0 THEN Poly({}, 0, g + 14 + i) ELSE Poly(Ax(d) \ {i}, 1, g + 14 + i)] ELSE <<>>
            IN /\ Ps' = <<Prob(pde, d, o, aa, bb, form, z, w, g), Prob(pde, d, o, aa, bb, f2, z, w, g + 500)>>
               /\ cfg' = [order |-> o, dg |-> dg /\ pde # "advdiff", lay |-> lay, full |-> full \/ Family = 2 \/ pde = "advdiff", form |-> <<>>]
Side == {[d |-> d, s |-> s] : d \in 1..3, s \in {-1, 1}}
Idx(x) == 2 * (x.d - 1) + (IF x.s = 1 THEN 2 ELSE 1)
Bounds == /\ st = 1 /\ st' = 2 /\ UNCHANGED <<ops, Ps>>
          /\ \E nx \in One(1..3), ny \in One(1..2), tri \in One(BOOLEAN), curv \in One({0, 0, 1, 2}), dist \in One(BOOLEAN), ns \in One(1..4), style \in One(0..3), seed \in One(1..10000),
                sh \in One(0..5), pick \in One([1..7 -> 0..5]), pick2 \in One([1..7 -> 0..5]), gx \in One(1..3), gy \in One(1..2), nc \in One(1..2), ls \in One({"direct", "direct", "cg", "minres"}), ty \in One({"spd", "sid", "us"}), var \in One(BOOLEAN), same \in One(BOOLEAN) :
             LET P == Ps[1]
                 nside == 2 * P.dim
                 attr == [x \in 1..nside |-> 1 + ((x + sh) % 6)]
                 sides(l) == {x \in Side : x.d <= P.dim /\ attr[Idx(x)] = l}
                 used == {attr[i] : i \in 1..nside}
                 al(p, l) == LET S == Allowed(p, sides(l)) IN IF "neumann" \in S THEN (IF Flow(p) THEN <<"neumann", "neumann", "dirichlet">> ELSE <<"neumann", "dirichlet", "dirichlet">>) ELSE IF "zero" \in S THEN <<"zero", "dirichlet">> ELSE <<"dirichlet">>
                 ty0(p, pk) == [l \in 1..7 |-> IF l \in used THEN LET s == al(p, l) IN s[1 + (pk[l] % Len(s))] ELSE "dirichlet"]
                 first == attr[1]
                 fixd(t) == IF \A l \in used : t[l] = "neumann" THEN [t EXCEPT ![first] = "dirichlet"] ELSE t
                 t1 == fixd(ty0(Ps[1], pick))
                 t2 == fixd(ty0(Ps[2], IF same THEN pick ELSE pick2))
                 flow == Flow(P)
                 solv == IF P.pde = "ns" \/ P.pde = "advdiff" THEN "direct" ELSE IF flow THEN (IF ls = "cg" THEN "minres" ELSE ls) ELSE ls
                 mt == IF P.pde \in {"ns", "advdiff"} THEN "us" ELSE IF flow THEN (IF ty = "spd" THEN "us" ELSE ty) ELSE ty
             IN /\ ~Floating(P, {t1[l] : l \in used}) /\ ~Floating(Ps[2], {t2[l] : l \in used})
                /\ cfg' = [cfg EXCEPT !.form = [nx |-> (IF P.dim = 3 \/ flow THEN 1 + (nx % 2) ELSE nx), ny |-> (IF P.dim = 3 THEN 1 ELSE ny), nz |-> 1, simplex |-> (tri /\ P.pde # "ns"), curv |-> curv, dist |-> (dist /\ P.dim = 2 /\ P.pde \notin {"ns", "advdiff"}), ns |-> (IF P.dim = 3 /\ cfg.lay = "box" THEN 1 ELSE ns), style |-> style, seed |-> seed,
                       attr |-> attr, types |-> <<t1, t2>>, full |-> cfg.full, gx |-> (IF P.dim = 3 \/ flow THEN 1 + (gx % 2) ELSE gx), gy |-> (IF P.dim = 3 THEN 1 ELSE gy), gz |-> 1, nc |-> nc, sep |-> ((seed % 2) = 0), n |-> (IF flow \/ P.dim = 3 THEN 1 ELSE 1 + (seed % 2)),
                       turn |-> ((sh % 2) = 0 /\ Len(P.u) = 1), ls |-> solv, type |-> mt, ordering |-> (IF var THEN "variable" ELSE "domain")]]
Do(o) == ops' = Append(ops, o)
Step == st \in 2..(NOps + 1) /\ st' = st + 1 /\ UNCHANGED <<Ps, cfg>> /\
        \E w \in One(1..10), k \in One(0..1), rough \in One(BOOLEAN) :
          CASE w \in 1..2 -> Do([op |-> "build", level |-> "global", k |-> k, rough |-> rough])
            [] w \in 3..4 -> Do([op |-> "build", level |-> "component", k |-> k, rough |-> rough])
            [] w \in 5..6 -> Do([op |-> "run", level |-> "none", k |-> k, rough |-> rough])
            [] w \in 7..8 -> Do([op |-> "run", level |-> "global", k |-> k, rough |-> rough])
            [] OTHER -> Do([op |-> "run", level |-> "component", k |-> k, rough |-> rough])
Done == st = NOps + 2 /\ st' = st + 1 /\ UNCHANGED <<Ps, cfg, ops>>
        /\ PrintT("@@" \o ToJson([Ps |-> Ps, srcs |-> [k \in 1..2 |-> Source(Ps[k])], order |-> cfg.order, dg |-> cfg.dg, lay |-> cfg.lay, c |-> cfg.form, ops |-> ops,
                 fluxes |-> [k \in 1..2 |-> [x \in 1..(2 * Ps[k].dim) |-> Flux(Ps[k], ((x - 1) \div 2) + 1, IF (x % 2) = 0 THEN 1 ELSE -1)]]]))
Spec == Init /\ [][Start \/ Bounds \/ Step \/ Done]_vs
=============================================================================
