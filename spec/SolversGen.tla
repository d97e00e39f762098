------------------------------ MODULE SolversGen ----------------------------
EXTENDS Solvers, Json, Randomization, SequencesExt
CONSTANTS NOps, Family
VARIABLES st, P, cfg, ops
vs == <<st, P, cfg, ops>>
One(S) == RandomSubset(1, S)
Init == st = 0 /\ P = [pde |-> ""] /\ cfg = [k |-> 0] /\ ops = <<>>
BoxLen(c) == <<c.nx, c.ny, c.nz>>
\* a random polynomial of degree <= deg in the coordinates of the set A
Exps(A, deg) == {e \in (0..2) \X (0..2) \X (0..2) : Tot(e) <= deg /\ \A d \in 1..3 : d \notin A => e[d] = 0}
\* pseudo-random numbers from a seed below 100000
R(s, i) == ((((s * 7919) + (i * 10473)) % 99991) * 37 + i) \div 5
Poly(A, deg, s) == LET n == 1 + (R(s, 0) % 4) E == SetToSeq(Exps(A, deg))
                   IN Clean([i \in 1..n |-> [c |-> IF (R(s, i) % 6) < 3 THEN (R(s, i) % 3) - 3 ELSE 1 + (R(s, i) % 3), e |-> E[1 + (R(s, 10 + i) % Len(E))]]])
X(d) == <<[c |-> 1, e |-> [i \in 1..3 |-> IF i = d THEN 1 ELSE 0]]>>
Ax(dim) == 1..dim
Start == /\ st = 0 /\ st' = 1 /\ UNCHANGED ops
         /\ \E pde \in One(IF Family = 1 THEN {"poisson", "linelast"} ELSE {"stokes", "ns", "advdiff"}), dim \in One({2, 2, 3}), order \in One(1..2), dg \in One(BOOLEAN), lay \in One({"box", "box", "comp"}), A \in One(SUBSET (1..3)), form \in One(1..6), ax \in One(1..3), a \in One(1..3), b \in One(0..3), g \in One(1..99999) :
            LET flow == pde \in {"stokes", "ns"}
             o == IF flow THEN 1 ELSE order
             deg == IF flow THEN 2 ELSE o
             act == (A \cap Ax(dim)) \cup (IF A \cap Ax(dim) = {} THEN {1} ELSE {})
             z == IF ax > dim THEN 1 ELSE ax
             \* scalar fields: anything, or something vanishing on the low side of an axis
             scal == IF form = 1 THEN Times(X(z), Poly(Ax(dim), deg - 1, g)) ELSE IF form = 2 THEN Times(X(z), X(z)) ELSE IF form = 3 THEN Poly({}, 0, g) ELSE Poly(act, deg, g + 1)
             safe == IF \A n \in 1..Len(scal) : Tot(scal[n].e) <= deg THEN scal ELSE Poly(act, deg, g + 2)
             \* incompressible fields: shear along z (others may depend quadratically on coordinate z), component-wise, or from a stream function
             others == Ax(dim) \ {z}
             shear == [i \in 1..dim |-> IF i = z THEN Poly(others, 2, g + 3) ELSE IF form = 1 \/ i > z + 1 THEN <<>> ELSE Sc(b, Times(X(z), X(z)))]
             each == [i \in 1..dim |-> Poly(Ax(dim) \ {i}, 2, g + 3 + i)]
             strm == Plus(Plus(Sc(1, Times(X(1), Poly({1, 2}, 2, g + 7))), Poly({1, 2}, 2, g + 8)), Times(X(2), Poly({2}, 2, g + 9)))
             curl == IF dim = 2 THEN <<D(strm, 2), Sc(-1, D(strm, 1))>> ELSE each
             vel == IF form \in 1..2 THEN shear ELSE IF form = 3 THEN each ELSE IF form = 4 THEN curl ELSE shear
             u == IF flow THEN vel ELSE IF pde = "linelast" THEN [i \in 1..dim |-> IF form = 1 THEN Poly({}, 0, g + i) ELSE Poly(Ax(dim), deg, g + 10 + i)] ELSE <<safe>>
             q == IF ~flow THEN <<>> ELSE IF form \in {1, 2, 5} THEN Sc(b, X(z)) ELSE IF form = 6 THEN <<>> ELSE Poly(Ax(dim), 1, g + 14)
             w == IF pde = "advdiff" THEN [i \in 1..dim |-> IF form = 5 THEN <<>> ELSE IF form \in {2, 4} THEN Poly(Ax(dim) \ {i}, 1, g + 14 + i) ELSE Poly({}, 0, g + 14 + i)] ELSE <<>>
             IN /\ P' = [pde |-> pde, dim |-> dim, u |-> u, q |-> q, w |-> w, a |-> (IF pde = "ns" THEN 20 * a ELSE IF pde = "linelast" /\ form \in {2, 3} THEN 1 ELSE a), b |-> (IF pde = "linelast" THEN IF form \in {2, 3} THEN 1 ELSE b + 1 ELSE IF pde = "ns" THEN 1 + (b % 2) ELSE 0)]
                /\ cfg' = [order |-> o, dg |-> dg /\ pde # "advdiff", lay |-> (IF pde = "ns" THEN "box" ELSE lay), form |-> form]
Side == {[d |-> d, s |-> s] : d \in 1..3, s \in {-1, 1}}
Idx(x) == 2 * (x.d - 1) + (IF x.s = 1 THEN 2 ELSE 1)
Bounds == /\ st = 1 /\ st' = 2 /\ UNCHANGED ops
          /\ \E nx \in One(1..3), ny \in One(1..3), nz \in One(1..2), tri \in One(BOOLEAN), curv \in One({0, 0, 1, 2}), dist \in One(BOOLEAN), ns \in One(1..4), style \in One(0..3), seed \in One(1..10000), merge \in One(1..3),
                sh \in One(0..5), w1 \in One(1..3), pick \in One([1..7 -> 0..5]), solver \in One({"direct", "direct", "amg", "block", "plain"}), how \in One({"direct", "problem"}), vis \in One({"off", "each", "each", "one"}), voff \in One(0..2), vint \in One(1..2), verr \in One(BOOLEAN), gx \in One(1..3), gy \in One(1..2), nc \in One(1..2), oper \in One({"base", "lf"}) :
             LET nside == 2 * P.dim
                 attr == [x \in 1..nside |-> IF cfg.lay = "box" /\ merge = 1 THEN 1 + ((x + sh) % 3) ELSE 1 + ((x + sh) % 6)]
                 sides(l) == {x \in Side : x.d <= P.dim /\ attr[Idx(x)] = l}
                 used == {attr[i] : i \in 1..nside}
                 al(l) == LET S == Allowed(P, sides(l)) IN IF S = {"dirichlet"} THEN <<"dirichlet">> ELSE IF "zero" \in S /\ "neumann" \in S THEN <<"zero", "neumann", "dirichlet">> ELSE IF "zero" \in S THEN <<"zero", "dirichlet", "zero">> ELSE <<"neumann", "dirichlet", "neumann">>
                 ty0 == [l \in 1..7 |-> IF l \in used THEN LET s == al(l) IN s[1 + (pick[l] % Len(s))] ELSE "dirichlet"]
                 \* somewhere the solution itself must be prescribed
                 first == attr[1]
                 ty == IF \A l \in used : ty0[l] = "neumann" THEN [ty0 EXCEPT ![first] = "dirichlet"] ELSE ty0
                 float == Floating(P, {ty[l] : l \in used})
                 \* the flow of another problem, with the same linear solver
                 computed == P.pde = "advdiff" /\ ~(tri /\ P.dim = 3) /\ (seed % 2) = 1
                 sv == IF computed THEN "plain" ELSE IF P.pde = "ns" THEN "direct" ELSE IF float THEN (IF solver \in {"direct", "block"} THEN "amg" ELSE solver) ELSE IF Flow(P) /\ solver = "block" THEN "direct" ELSE IF P.pde = "advdiff" /\ solver = "amg" /\ (\E i \in 1..P.dim : P.w[i] # <<>>) THEN "plain" ELSE solver
                 hw == IF (float /\ (cfg.dg \/ P.pde # "stokes")) \/ P.pde = "advdiff" THEN "direct" ELSE IF P.pde = "linelast" /\ (P.a # 1 \/ P.b # 1) THEN "problem" ELSE how      \* without a problem the material is 1, 1
                 affine == P.pde \in {"ns", "advdiff"}
             IN cfg' = [cfg EXCEPT !.form = [nx |-> (IF P.dim = 3 THEN 1 + (nx % 2) ELSE nx), ny |-> (IF P.dim = 3 THEN 1 ELSE ny), nz |-> (IF P.dim = 3 THEN nz ELSE 1), simplex |-> (tri /\ P.pde # "ns" /\ ~(P.pde = "stokes" /\ P.dim = 3)), curv |-> curv, dist |-> (dist /\ P.dim = 2 /\ ~affine), ns |-> (IF P.dim = 3 /\ cfg.lay = "box" THEN 1 ELSE ns), style |-> style, seed |-> seed,
                       attr |-> attr, types |-> ty, float |-> float, solver |-> sv, how |-> hw, flow |-> (IF computed THEN "stokes" ELSE "given"), shift |-> (IF float /\ hw = "problem" /\ cfg.lay = "box" /\ (\A l \in used : ty[l] # "zero") THEN 2 ELSE 0), vis |-> (IF vis = "one" /\ cfg.lay = "comp" THEN "each" ELSE vis), voff |-> voff, vint |-> vint, verr |-> verr, gx |-> (IF P.dim = 3 THEN 1 + (gx % 2) ELSE gx), gy |-> (IF P.dim = 3 THEN 1 ELSE gy), gz |-> 1, nc |-> nc, sep |-> ((seed % 3) = 0), n |-> (IF Flow(P) \/ P.pde = "advdiff" \/ P.dim = 3 THEN 1 ELSE 1 + (seed % 2)), turn |-> ((sh % 2) = 0), oper |-> oper]]
                /\ (P.pde = "ns" => ~float) /\ UNCHANGED P
Do(o) == ops' = Append(ops, o)
Step == st \in 2..(NOps + 1) /\ st' = st + 1 /\ UNCHANGED <<P, cfg>> /\
        \E w \in One(1..17), m \in One(0..3), v \in One(0..1), k \in One({-2, -1, 0, 2, 3}), f \in One(0..2), s \in One(0..9), t \in One(-8..8) :
          CASE w \in 1..3 -> Do([op |-> "scale", m |-> m, v |-> v, k |-> k])
            [] w = 4 -> Do([op |-> "save", f |-> f])
            [] w = 5 -> Do([op |-> "load", f |-> f])
            [] w = 6 -> Do([op |-> "savet", f |-> f, step |-> s, time |-> t])
            [] w = 7 -> Do([op |-> "loadt", f |-> f])
            [] w = 8 -> Do([op |-> "keep"])
            [] w = 9 -> Do([op |-> "copy"])
            [] w = 10 -> Do([op |-> "vars", s |-> s])
            [] w = 11 -> Do([op |-> "snap"])
            [] w \in 12..13 -> Do([op |-> "compare", k |-> k, k2 |-> t, s |-> s])
            [] w = 14 -> Do([op |-> "vis"])
            [] w = 15 -> Do([op |-> "vist", step |-> s, time |-> t])
            [] w = 16 -> Do([op |-> "mode", on |-> (s > 3)])
            [] OTHER -> Do([op |-> "points"])
Done == st = NOps + 2 /\ st' = st + 1 /\ PrintT("@@" \o ToJson([P |-> P, src |-> Source(P), order |-> cfg.order, dg |-> cfg.dg, lay |-> cfg.lay, c |-> cfg.form, ops |-> ops,
                 flux |-> [x \in 1..(2 * P.dim) |-> Flux(P, ((x - 1) \div 2) + 1, IF (x % 2) = 0 THEN 1 ELSE -1)]])) /\ UNCHANGED <<P, cfg, ops>>
Spec == Init /\ [][Start \/ Bounds \/ Step \/ Done]_vs
=============================================================================
