----------------------------- MODULE UnsteadyMC ----------------------------
(* Histories of runs over abstract fields (the fields after step k are k): every history of runs   *)
(* with restarts tells the same story as one uninterrupted run.                                    *)
EXTENDS Unsteady
CONSTANTS NT, MaxRuns
VARIABLES files, runs, now
mv == <<files, runs, now>>
Init == files = NoFiles /\ runs = 0 /\ now = [k |-> 0, time |-> 0]
Rec == [restart : BOOLEAN, from : 0..NT, nt : 0..NT, dt : {4}, save : BOOLEAN, rint : 0..2, vint : {-1}, si : 0..2, boot : 0..1]
Go == /\ runs < MaxRuns
      /\ \E r \in Rec : LET val == [k \in 0..9 |-> k] last == IF Taken(r, files) = {} THEN Begins(r, files) ELSE r.nt IN
         /\ (r.restart \/ r.from = 0) /\ Runs(r, files)
         /\ files' = Left(r, files, val)
         /\ now' = [k |-> At(r, files, IF r.restart THEN files[r.from].f ELSE 0, val, last), time |-> TimeAt(r, files, last)]
      /\ runs' = runs + 1
Spec == Init /\ [][Go]_mv
\* files hold the fields, the step and the time an uninterrupted run has there
Faithful == \A k \in 0..9 : files[k] = None \/ (files[k].step = k /\ files[k].f = k /\ files[k].time = 4 * k)
Ends == now.time = 4 * now.k
NeverLost == [][\A k \in 0..9 : files[k] # None => files'[k] # None]_mv
Count == \A r \in Rec : (~r.restart /\ runs = 0) =>
           /\ Cardinality(Shown(r, files)) = r.nt
           /\ (r.si > 0 => Cardinality(Sampled(r, files)) = (r.nt \div r.si) - (IF r.boot >= r.si THEN (IF r.boot > r.nt THEN r.nt ELSE r.boot) \div r.si ELSE 0))
=============================================================================
