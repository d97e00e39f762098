------------------------------ MODULE Transfer ------------------------------
(* Copying subdomain fields into one field on the whole mesh: each subdomain   *)
(* overwrites exactly the part of the global field that lies on its elements.  *)
EXTENDS Integers, Sequences, FiniteSets, TLC
VARIABLES owner,   \* element -> subdomain
          local,   \* element -> value held by the owning subdomain
          glob,    \* element -> global value
          done     \* subdomains copied
fvars == <<owner, local, glob, done>>
Abs(x) == IF x < 0 THEN -x ELSE x
Near(a, b, slack) == Len(a) = Len(b) /\ \A i \in 1..Len(a) : Abs(a[i] - b[i]) <= slack
Copy(k) == /\ k \in {owner[e] : e \in DOMAIN owner} \ done
           /\ glob' = [e \in DOMAIN glob |-> IF owner[e] = k THEN local[e] ELSE glob[e]]
           /\ done' = done \cup {k} /\ UNCHANGED <<owner, local>>
AllDone == done = {owner[e] : e \in DOMAIN owner}
Faithful == \A e \in DOMAIN owner : owner[e] \in done => glob[e] = local[e]
Untouched == \A e \in DOMAIN owner : owner[e] \notin done => glob[e] = "old"
=============================================================================
