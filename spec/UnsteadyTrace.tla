---------------------------- MODULE UnsteadyTrace --------------------------
(* Recorded histories of runs of the unsteady solver against the specification.                    *)
EXTENDS Unsteady, Json, IOUtils
VARIABLES l, dim, nsub, files
tv == <<l, dim, nsub, files>>
Trace == ndJsonDeserialize(IOEnv.TRACE)
E == Trace[l]
Is(e) == l <= Len(Trace) /\ E.event = e /\ l' = l + 1
TInit == l = 1 /\ dim = 0 /\ nsub = 0 /\ files = NoFiles
TNew == Is("New") /\ dim' = E.dim /\ nsub' = E.nsub /\ files' = NoFiles
\* points of one field (at coordinates in 1/32, in 1/1024), for velocity and pressure of every subdomain in turn
Fits(f, b, ps) == \A n \in 1..Len(ps) : ps[n][2] = (IF (b % 2) = 1 THEN [i \in 1..dim |-> Val(f.u[i], ps[n][1], 32, 2)] ELSE <<Val(f.q, ps[n][1], 32, 2)>>)
Match(f, pts) == /\ Len(pts) = 2 * nsub
                 /\ \A b \in 1..(2 * nsub) : /\ Len(pts[b]) > 0 /\ Fits(f, b, pts[b])
Range(s) == {s[n] : n \in 1..Len(s)}
\* what a run starts with
Start(r) == IF r.restart THEN files[r.from].f ELSE [u |-> r.u0, q |-> r.q0]
Target(r) == [u |-> r.P.u, q |-> r.P.q]
TRun == /\ Is("Run") /\ UNCHANGED <<dim, nsub>>
        /\ LET r == E.r IN
           IF r.refuse # "" \/ ~Runs(r, files) THEN ~E.ok /\ files' = files
           ELSE LET val == [k \in 0..9 |-> IF k = Begins(r, files) THEN Start(r) ELSE Target(r)]
                    last == Begins(r, files) + After(r, files) IN
             /\ E.ok
             \* the run was meant to end where the specification says it does
             /\ (Taken(r, files) = {} \/ (\A i \in 1..dim : Clean(r.src[i]) = Clean(Force(r.P, Start(r).u, r.d, r.jump)[i])))
             /\ Match(val[last], E.pts)
             /\ files' = Left(r, files, val)
             \* every file in the directory, with its step, its time and its fields
             /\ {x[1] : x \in Range(E.files)} = {k \in 0..9 : files'[k] # None}
             /\ TRUE = (\A n \in 1..Len(E.files) : LET x == E.files[n] f == files'[x[1]] IN x[2] = f.step /\ x[3] = f.time /\ Match(f.f, x[4]))
             \* visualization: the initial fields, then the steps asked for
             /\ (r.vis => \A m \in 1..nsub : Range(E.cycles[m]) \ {0, Begins(r, files)} = Shown(r, files) /\ (r.restart \/ 0 \in Range(E.cycles[m])))
             \* each with its time and its fields (the files opened at the start of a restarted run: any)
             /\ (r.vis => \A m \in 1..nsub : /\ {x[1] : x \in Range(E.shown[m])} = Range(E.cycles[m])
                                           /\ TRUE = (\A n \in 1..Len(E.shown[m]) : LET x == E.shown[m][n] IN
                                                \/ r.restart /\ x[1] \in {0, Begins(r, files)}
                                                \/ /\ x[2] = TimeAt(r, files, x[1])
                                                   /\ Len(x[3]) > 0 /\ Len(x[4]) > 0 /\ Fits(val[x[1]], 1, x[3]) /\ Fits(val[x[1]], 2, x[4])))
             /\ (~r.vis => E.cycles = <<>>)
             /\ E.snaps = [b \in 1..(2 * nsub) |-> IF r.samp THEN Cardinality(Sampled(r, files)) ELSE 0]
             /\ E.same
TKind == Is("Kind") /\ UNCHANGED <<dim, nsub, files>>
TNext == TNew \/ TRun \/ TKind
TSpec == TInit /\ [][TNext]_tv
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
