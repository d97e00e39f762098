----------------------------- MODULE WorkflowMC -----------------------------
(* The stages as a state machine over what was derived from what; grids and spans by brute force.  *)
EXTENDS Workflow
CONSTANTS Coef, MaxVer
VARIABLES s, v
\* v: the version of the samples, of the bases and of each stored operator (0: none)
mv == <<s, v>>
Init == s = Fresh /\ v = [smp |-> 0, gens |-> 0, basis |-> 0, op |-> [x \in {"global", "component"} |-> 0], uses |-> [x \in {"global", "component"} |-> 0], bases |-> 0, pts |-> 0]
Level == {"none", "global", "component"}
Gen == v.gens < MaxVer /\ s' = Generated(s) /\ v' = [v EXCEPT !.gens = @ + 1, !.smp = v.gens + 1]
Train == CanTrain(s) /\ v.bases < MaxVer /\ s' = Trained(s)
         /\ v' = [v EXCEPT !.bases = @ + 1, !.basis = v.bases + 1, !.op = [x \in {"global", "component"} |-> 0], !.pts = 0]
Probs == {"poisson0", "advdiff"}
Build(l, k, comp, prob) == CanBuild(s, l, comp, prob) /\ s' = Built(s, l, k) /\ v' = (IF l = "none" THEN v ELSE [v EXCEPT !.op[l] = k, !.uses[l] = v.basis])
Shape == [eqp : BOOLEAN, comp : BOOLEAN, lf : BOOLEAN, dg : BOOLEAN, ports : BOOLEAN]
Points(B, l, m) == CanTrainPoints(s, B, l, m) /\ s' = PointsTrained(s) /\ v' = [v EXCEPT !.pts = v.basis]
Next == Gen \/ Train \/ (\E B \in Shape, l \in Level, m \in {"port", "basis"} : Points(B, l, m)) \/ \E l \in {"none", "global", "component"}, k \in 1..2, c \in BOOLEAN, p \in Probs : Build(l, k, c, p)
Spec == Init /\ [][Next]_mv
\* the full model runs at any time; a reduced one only with bases, and with an operator projected on the very same bases
Sound == /\ \A l \in Level : CanRun(s, FALSE, l)
         /\ \A l \in Level : CanRun(s, TRUE, l) => v.basis > 0 /\ v.smp > 0
         /\ \A l \in {"global", "component"} : CanRun(s, TRUE, l) => v.uses[l] = v.basis /\ s.built[l] = v.op[l] /\ v.op[l] # 0
         /\ (CanRun(s, TRUE, "none") <=> v.basis > 0)
         /\ (s.train => s.gen)
         \* hyper-reduced runs: points trained on the very bases the operator was projected on
         /\ \A l \in Level : CanRunHyper(s, TRUE, l) => l = "component" /\ v.pts = v.basis /\ v.pts = v.uses[l]
         /\ \A B \in Shape, l \in Level, m \in {"port", "basis"} : CanTrainPoints(s, B, l, m) => v.smp > 0 /\ v.basis > 0
         \* components are only ever used where asked for, and never for advection-diffusion
         /\ \A l \in Level, c \in BOOLEAN, p \in Probs : CanBuild(s, l, c, p) => v.basis > 0 /\ (l = "component" => c /\ p # "advdiff")
         /\ \A B \in Shape : CanShowPoints(s, B) => v.pts > 0
\* --- spans ------------------------------------------------------------------------------------
V2 == {<<a, b>> : a, b \in -1..2}
V3 == {<<a, b, c>> : a, b, c \in 0..1}
Det2(a, b) == a[1] * b[2] - a[2] * b[1]
\* in the plane: two independent vectors span everything, otherwise one has to be parallel
Span2(x, S) == IF \E a, b \in S : Det2(a, b) # 0 THEN TRUE ELSE x = <<0, 0>> \/ \E a \in S : a # <<0, 0>> /\ Det2(a, x) = 0
ASSUME \A x \in V2, a, b \in V2 : InSpan(x, {a, b}) = Span2(x, {a, b}) /\ InSpan(x, {a}) = Span2(x, {a})
\* every integer combination is found; what is found is one, up to a common factor
RECURSIVE Comb(_, _)
Comb(S, d) == IF S = {} THEN {[i \in 1..d |-> 0]} ELSE LET a == CHOOSE a \in S : TRUE IN {[i \in 1..d |-> k * a[i] + y[i]] : k \in -Coef..Coef, y \in Comb(S \ {a}, d)}
Mult(x, d) == {[i \in 1..d |-> k * x[i]] : k \in 1..Coef}
Three == {S \in SUBSET V3 : Cardinality(S) <= 3}
ASSUME \A S \in Three : \A x \in V3 : InSpan(x, S) = (Mult(x, 3) \cap Comb(S, 3) # {})
\* --- grids ------------------------------------------------------------------------------------
Sweep == {[p |-> p, lo |-> lo, step |-> st, n |-> n] : p \in 1..3, lo \in 0..1, st \in 1..2, n \in 1..3}
ASSUME \A a, b \in Sweep : a.p # b.p =>
   LET g == Grid(<<7, 7, 7>>, <<a, b>>)
   IN /\ Len(g) = a.n * b.n
      \* all combinations, each once, the last parameter the fastest
      /\ {g[i] : i \in 1..Len(g)} = {[[<<7, 7, 7>> EXCEPT ![a.p] = a.lo + a.step * i] EXCEPT ![b.p] = b.lo + b.step * j] : i \in 0..(a.n - 1), j \in 0..(b.n - 1)}
      /\ \A i, j \in 1..Len(g) : i # j => g[i] # g[j]
      /\ \A i \in 1..(Len(g) - 1) : IF (i % b.n) # 0 THEN g[i + 1][b.p] = g[i][b.p] + b.step /\ g[i + 1][a.p] = g[i][a.p] ELSE g[i + 1][b.p] = b.lo /\ g[i + 1][a.p] = g[i][a.p] + a.step
\* solutions that are reached need a sample of their family
ASSUME \A x, y \in V3 : Reachable("channel_flow", <<x[1] + 1, x[2], x[3]>>, {<<y[1] + 1, y[2], y[3]>>}) = (x[2] = y[2])
=============================================================================
