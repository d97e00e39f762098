----------------------------- MODULE ProfilerMC -----------------------------
EXTENDS Profiler
VARIABLES hist      \* rank -> sequence of starts and stops so far
Init == PInit /\ hist = [r \in Ranks |-> <<>>]
Next == \E r \in Ranks, n \in Names : Len(hist[r]) < 4 /\
          \/ Start(r, n) /\ hist' = [hist EXCEPT ![r] = Append(@, <<"s", n>>)]
          \/ Stop(r, n, 1, 1) /\ hist' = [hist EXCEPT ![r] = Append(@, <<"e", n>>)]
Spec == Init /\ [][Next]_<<pvars, hist>>
Count(r, k, n) == Cardinality({i \in 1..Len(hist[r]) : hist[r][i] = <<k, n>>})
Paired == \A r \in Ranks, n \in Names : /\ calls[r][n] = Count(r, "e", n)
            /\ Count(r, "s", n) - Count(r, "e", n) = IF n \in running[r] THEN 1 ELSE 0
Ordered == \A r \in Ranks : Known(r) = {n \in Names : Count(r, "s", n) > 0} /\ Cardinality(Known(r)) = Len(known[r])
Summed == (\A r, q \in Ranks : known[r] = known[q]) => \A i \in 1..Len(Rows(Ranks)) :
            Rows(Ranks)[i].calls = Sum(LAMBDA r : Count(r, "e", Rows(Ranks)[i].n), Ranks) /\ Rows(Ranks)[i].lo = Rows(Ranks)[i].calls
=============================================================================
