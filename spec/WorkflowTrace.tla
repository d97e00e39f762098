----------------------------- MODULE WorkflowTrace --------------------------
(* Recorded studies: what was sampled, what was trained on it, which runs go ahead and what they   *)
(* compute.                                                                                        *)
EXTENDS Workflow, Json, IOUtils
VARIABLES l, B, S
tv == <<l, B, S>>
Trace == ndJsonDeserialize(IOEnv.TRACE)
E == Trace[l]
Is(e) == l <= Len(Trace) /\ E.event = e /\ l' = l + 1
TInit == l = 1 /\ B = [prob |-> ""] /\ S = Fresh
Set(s) == {s[i] : i \in 1..Len(s)}
TBegin == /\ Is("Begin") /\ S' = Fresh
          /\ B' = [prob |-> E.prob, comp |-> E.comp, cands |-> E.cands, n |-> E.n, sep |-> E.sep, nvar |-> E.nvar, types |-> E.types, eqp |-> E.eqp, lf |-> E.lf, dg |-> E.dg, ports |-> E.ports]
          /\ Len(E.types) = E.nsub
X(k) == B.cands[k]
Same(j, k) == Family(B.prob, X(j)) = Family(B.prob, X(k)) /\ Feature(B.prob, X(j)) = Feature(B.prob, X(k))
\* a solution is that of problem k (and of every problem with the same data)
Is0(found, k) == \A j \in 1..Len(B.cands) : Same(j, k) => j \in Set(found)
Count(t) == Cardinality({m \in 1..Len(B.types) : B.types[m] = t})
TGen == /\ Is("Gen") /\ E.same /\ ~E.beyond
        /\ Len(E.files) = B.n
        /\ \A i \in 1..B.n : Is0(E.files[i], i)
        /\ LET w == IF B.sep THEN B.nvar ELSE 1 IN \A i \in 1..Len(E.cols) : E.cols[i] = B.n * Count((i - 1) \div w)
        /\ S' = Generated(S) /\ UNCHANGED B
TTrain == /\ Is("Train") /\ E.ok = CanTrain(S)
          /\ (E.ok => E.orth)
          /\ S' = (IF E.ok THEN Trained(S) ELSE S) /\ UNCHANGED B
TBuild == /\ Is("Build") /\ E.ok = CanBuild(S, E.level, B.comp, B.prob)
          /\ S' = (IF E.ok THEN Built(S, E.level, E.k) ELSE S) /\ UNCHANGED B
\* the stored operator is one for this problem
Fits(level, k) == IF level = "none" \/ B.prob \in {"poisson0", "poisson_component"} THEN TRUE ELSE Family(B.prob, X(S.built[level])) = Family(B.prob, X(k))
\* one basis for velocity and pressure together: only if no pressure is left without its velocity
Regular == IF B.sep \/ B.nvar = 1 THEN TRUE ELSE \A i, j \in 1..B.n : Family(B.prob, X(i)) = Family(B.prob, X(j))
Exact == ~E.rom \/ (Regular /\ Fits(E.level, E.k) /\ Reachable(B.prob, X(E.k), {X(i) : i \in 1..B.n}))
Abs(x) == IF x < 0 THEN -x ELSE x
TEqp == /\ Is("Eqp") /\ E.ok = CanTrainPoints(S, B, E.level, E.mode)
        /\ S' = (IF E.ok THEN PointsTrained(S) ELSE S) /\ UNCHANGED B
TCoords == Is("Coords") /\ E.ok = CanShowPoints(S, B) /\ E.inside /\ UNCHANGED <<B, S>>
TRun == /\ Is("Run") /\ E.ok = (IF B.eqp THEN CanRunHyper(S, E.rom, E.level) ELSE CanRun(S, E.rom, E.level))
        /\ TRUE = (IF ~E.ok THEN TRUE
                   ELSE /\ E.out
                        /\ (E.cmp = 0 \/ ~E.rom) = (E.err = -1)
                        /\ IF ~Exact THEN TRUE
                           ELSE /\ Is0(E.match, E.k)
                                /\ (IF E.err = -1 THEN TRUE ELSE IF E.cmp = 1 THEN E.err <= 5 ELSE Abs(E.err - E.dist) <= 5 + (E.dist \div 10000) /\ (Same(E.k, E.with) => E.dist <= 5))
                                \* solutions that are multiples of each other: the error is known
                                /\ (IF E.err = -1 \/ E.cmp # 2 \/ ~Scalar(B.prob) \/ Family(B.prob, X(E.k)) # Family(B.prob, X(E.with)) THEN TRUE
                                    ELSE Abs(E.err * X(E.with)[1] - 1000000 * Abs(X(E.k)[1] - X(E.with)[1])) <= 20))
        /\ UNCHANGED <<B, S>>
TNext == TBegin \/ TGen \/ TTrain \/ TEqp \/ TCoords \/ TBuild \/ TRun
TSpec == TInit /\ [][TNext]_tv
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
