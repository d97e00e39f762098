------------------------------- MODULE Reduced ------------------------------
(* Reduced-order models of decomposed problems: which stages there are, which of them a run needs, *)
(* and what it must return.  The exact problems are those of Solvers.                              *)
EXTENDS Solvers
Levels == {"none", "global", "component"}
\* an operator can be stored as a whole (global), or as elements of the components, their sides and ports
CanBuild(B, level) == level = "global" \/ (level = "component" /\ B.comp /\ B.pde # "advdiff")
\* built: for each level the problem it was built with (0: none)
CanRun(built, level) == IF level = "none" THEN TRUE ELSE built[level] # 0
\* The stored whole operator holds the essential conditions of the problem it was built with; the elements of
\* the components are put together for the problem that is run.
Kinds(types) == [l \in 1..Len(types) |-> types[l] = "neumann"]
Fits(B, built, level, k) == IF level # "global" THEN TRUE ELSE Kinds(B.types[k]) = Kinds(B.types[built["global"]])
=============================================================================
