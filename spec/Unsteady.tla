------------------------------ MODULE Unsteady -----------------------------
(* Time integration of the Navier-Stokes equations, as runs over one directory of solution files.  *)
(* A run starts from given fields or from a file of an earlier run, takes its steps, and leaves    *)
(* files, visualization and snapshots on the way.  First-order implicit-explicit stepping:         *)
(*   (u1 - u0) / dt - nu Lap u1 + grad q1 = f - zeta (u0 . grad) u0,  div u1 = 0                   *)
(* so the fields after a step are known when f is chosen for them.                                 *)
EXTENDS Solvers
None == [step |-> -1]
NoFiles == [k \in 0..9 |-> None]
\* a run r: restart (from file r.from) or not, nt, dt (in sixteenths), save, rint, vint, si, boot
Begins(r, files) == IF r.restart THEN files[r.from].step ELSE 0
Since(r, files) == IF r.restart THEN files[r.from].time ELSE 0
Runs(r, files) == ~r.restart \/ files[r.from] # None
Taken(r, files) == (Begins(r, files) + 1)..r.nt                 \* the steps taken
After(r, files) == IF Taken(r, files) = {} THEN 0 ELSE r.nt - Begins(r, files)
TimeAt(r, files, k) == Since(r, files) + (k - Begins(r, files)) * r.dt
\* fields after step k: what the run starts with, or what it steps to
At(r, files, start, target, k) == IF k = Begins(r, files) THEN start ELSE target[k]
Saved(r, files) == IF ~r.save THEN {} ELSE (IF r.restart THEN {} ELSE {0}) \cup (IF r.rint = 0 THEN {} ELSE {k \in Taken(r, files) : (k % r.rint) = 0})
Shown(r, files) == IF r.vint = 0 THEN {} ELSE {k \in Taken(r, files) : r.vint < 0 \/ (k % r.vint) = 0}
Sampled(r, files) == IF r.si = 0 THEN {} ELSE {k \in Taken(r, files) : k > r.boot /\ (k % r.si) = 0}
\* files after a run; val[k] are the fields after step k
Left(r, files, val) == [k \in 0..9 |-> IF k \in Saved(r, files) THEN [step |-> k, time |-> TimeAt(r, files, k), f |-> val[k]] ELSE files[k]]
\* the volume force that takes the fields from u0 to P.u in one step of 1/d (nothing advected), or keeps P.u for ever
Force(P, u0, d, jump) == IF jump THEN [i \in 1..P.dim |-> Sum(<<Sc(d, P.u[i]), Sc(-d, u0[i]), Source(P)[i]>>)] ELSE Source(P)
=============================================================================
