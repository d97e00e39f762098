----------------------------- MODULE ReducedTrace ---------------------------
(* Recorded reduced-order runs: with which stored operators they go ahead, and what they compute.  *)
EXTENDS Reduced, Json, IOUtils
VARIABLES l, B, built
tv == <<l, B, built>>
Trace == ndJsonDeserialize(IOEnv.TRACE)
E == Trace[l]
Is(e) == l <= Len(Trace) /\ E.event = e /\ l' = l + 1
None == [x \in {"global", "component"} |-> 0]
TInit == l = 1 /\ B = [pde |-> "", comp |-> FALSE] /\ built = None
TBegin == /\ Is("Begin")
          /\ B' = [pde |-> E.Ps[1].pde, comp |-> E.comp, types |-> E.types, Ps |-> E.Ps, nsub |-> E.nsub, nvar |-> E.nvar, full |-> E.full, size |-> E.size, rel |-> E.rel]
          /\ E.nsub = E.nsubs /\ E.nvar = Len(Vars(E.Ps[1]))
          /\ built' = None
TBuild == /\ Is("Build") /\ E.ok = CanBuild(B, E.level)
          /\ built' = (IF E.ok THEN [built EXCEPT ![E.level] = E.k] ELSE built)
          /\ UNCHANGED B
Field(k, v) == Vars(B.Ps[k])[v]
Exact(k, v, x) == [i \in 1..Len(Field(k, v)) |-> Val(Field(k, v)[i], x, 32, 2)]
Shown(k, pts) == /\ Len(pts) = B.nsub * B.nvar
                 /\ \A m \in 1..B.nsub, v \in 1..B.nvar : LET p == pts[(m - 1) * B.nvar + v] IN
                      Len(p) > 0 /\ \A n \in 1..Len(p) : p[n][2] = Exact(k, v, p[n][1])
\* A listed finding: elements of a port are computed in the frame of its first component only
Unplaced == B.pde = "poisson" /\ B.rel /\ E.level = "component"
TRun == /\ Is("Run") /\ E.ok = CanRun(built, E.level)
        /\ TRUE = (IF ~E.ok \/ ~Fits(B, built, E.level, E.k) \/ Unplaced THEN TRUE
                   ELSE /\ E.same /\ E.size = B.size
                        \* the basis holds the solution: it is found, as by the full model
                        /\ E.conv
                        /\ \A v \in 1..B.nvar : E.err[v] <= 5
                        /\ (E.rough \/ Shown(E.k, E.pts)))
        /\ UNCHANGED <<B, built>>
TNext == TBegin \/ TBuild \/ TRun
TSpec == TInit /\ [][TNext]_tv
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
