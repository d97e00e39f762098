------------------------------- MODULE Workflow -----------------------------
(* The stages of a reduced-order study: sample the full model over a grid of parameters, train     *)
(* bases on the snapshots, build the reduced operator, run single problems.                        *)
(* A problem's parameters are three integers; its solution is linear in its feature vector, within *)
(* one family (the parameters its operator or the shape of its data depends on).                   *)
EXTENDS Integers, Sequences, FiniteSets, TLC
Cs(x) == CASE (x % 4) = 0 -> 1 [] (x % 4) = 2 -> -1 [] OTHER -> 0
Sn(x) == Cs(x + 3)
Family(prob, x) == CASE prob = "poisson0" -> <<x[1]>> [] prob = "poisson_component" -> <<x[3]>> [] prob = "channel_flow" -> <<x[2]>> [] prob = "advdiff" -> <<x[1]>>
                     [] prob \in {"ns", "nsf"} -> x [] OTHER -> IF prob = "linelast_disp" THEN <<x[2], x[3]>> ELSE <<x[3]>>
Feature(prob, x) == CASE prob = "poisson0" -> <<Cs(x[2]), Sn(x[2])>>
                      [] prob = "poisson_component" -> <<Cs(x[1]), Sn(x[1]), Cs(x[2]), Sn(x[2])>>
                      [] prob \in {"channel_flow", "linelast_disp"} -> <<x[1]>>
                      [] prob = "force_driven_corner" -> <<x[1], x[2]>>
                      [] prob = "advdiff" -> <<x[2], x[3]>>
                      [] OTHER -> <<1>>
\* Is v a linear combination of the vectors in S?  (fraction-free elimination on small integers)
Lead(v) == LET I == {i \in 1..Len(v) : v[i] # 0} IN IF I = {} THEN 0 ELSE CHOOSE i \in I : \A j \in I : i <= j
Elim(v, w, i) == [j \in 1..Len(v) |-> w[i] * v[j] - v[i] * w[j]]
RECURSIVE InSpan(_, _)
InSpan(v, S) ==
  IF Lead(v) = 0 THEN TRUE
  ELSE LET P == {w \in S : Lead(w) # 0} IN
       IF P = {} THEN FALSE
       ELSE LET k == CHOOSE k \in {Lead(w) : w \in P} : \A w \in P : k <= Lead(w)
                w == CHOOSE w \in P : Lead(w) = k
            IN IF Lead(v) < k THEN FALSE
               ELSE InSpan(Elim(v, w, k), {Elim(u, w, k) : u \in P \ {w}})
Reachable(prob, x, trained) == InSpan(Feature(prob, x), {Feature(prob, y) : y \in {z \in trained : Family(prob, z) = Family(prob, x)}})
\* the grid of samples: base point with swept parameters [p, lo, step, n], the last one fastest
RECURSIVE Place(_, _, _)
Size(sw) == IF sw = <<>> THEN 1 ELSE LET RECURSIVE G(_) G(k) == IF k = 0 THEN 1 ELSE sw[k].n * G(k - 1) IN G(Len(sw))
Place(base, sw, i) == IF sw = <<>> THEN base
   ELSE LET s == sw[Len(sw)] IN Place([base EXCEPT ![s.p] = s.lo + s.step * (i % s.n)], SubSeq(sw, 1, Len(sw) - 1), i \div s.n)
Grid(base, sw) == [i \in 1..Size(sw) |-> Place(base, sw, i - 1)]
\* random sampling over ranges of width zero
Samples(c) == IF c.rand THEN [i \in 1..Size(c.sw) |-> c.base] ELSE Grid(c.base, c.sw)
\* problems whose solutions are multiples of each other within a family
Scalar(prob) == prob \in {"channel_flow", "linelast_disp"}
\* the stages: what exists (bases follow from samples, stored operators from bases), for which problem operators were built
Fresh == [gen |-> FALSE, train |-> FALSE, pts |-> FALSE, built |-> [x \in {"global", "component"} |-> 0]]
Generated(s) == [s EXCEPT !.gen = TRUE]
CanTrain(s) == s.gen
Trained(s) == [Fresh EXCEPT !.gen = TRUE, !.train = TRUE]
\* advection-diffusion has no component level
CanBuild(s, level, comp, prob) == s.train /\ (level = "component" => comp /\ prob # "advdiff")
Built(s, level, k) == IF level = "none" THEN s ELSE [s EXCEPT !.built[level] = k]
CanRun(s, rom, level) == IF ~rom THEN TRUE ELSE s.train /\ (IF level = "none" THEN TRUE ELSE s.built[level] # 0)
\* Hyper-reduction: points and weights are trained on samples and bases, for components only; with numerical fluxes the
\* samples have to be collected by ports.  Reduced runs then need them, and the component level.
CanTrainPoints(s, B, level, mode) == s.gen /\ s.train /\ B.eqp /\ B.comp /\ level = "component" /\ (B.lf => mode = "port" \/ ~B.ports)
PointsTrained(s) == [s EXCEPT !.pts = TRUE]
CanRunHyper(s, rom, level) == IF ~rom THEN TRUE ELSE level = "component" /\ s.pts /\ CanRun(s, rom, level)
\* coordinates of face points are not written
CanShowPoints(s, B) == s.pts /\ ~(B.lf /\ B.dg)
=============================================================================
