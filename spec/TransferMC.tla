----------------------------- MODULE TransferMC -----------------------------
EXTENDS Transfer
Init == /\ owner \in [1..5 -> 1..3] /\ local \in [1..5 -> {"a", "b"}] /\ glob = [e \in 1..5 |-> "old"] /\ done = {}
Next == \E k \in 1..3 : Copy(k)
Spec == Init /\ [][Next]_fvars /\ WF_fvars(Next)
Ends == <>AllDone
=============================================================================
