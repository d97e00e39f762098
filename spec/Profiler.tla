------------------------------ MODULE Profiler ------------------------------
(* A profiler per rank: named timers that are started and stopped in pairs, and  *)
(* a collective report of the calls and times of each name summed over ranks.      *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Ranks, Names
VARIABLES known,     \* rank -> names in the order of their first start
          running,   \* rank -> names started and not stopped
          calls,     \* rank -> name -> completed pairs
          lo, hi     \* rank -> name -> bounds of the time spent between starts and stops (microseconds)
pvars == <<known, running, calls, lo, hi>>
PInit == /\ known = [r \in Ranks |-> <<>>] /\ running = [r \in Ranks |-> {}]
         /\ calls = [r \in Ranks |-> [n \in Names |-> 0]]
         /\ lo = [r \in Ranks |-> [n \in Names |-> 0]] /\ hi = [r \in Ranks |-> [n \in Names |-> 0]]
Known(r) == {known[r][i] : i \in 1..Len(known[r])}
CanStart(r, n) == n \notin running[r]
CanStop(r, n) == n \in running[r]
CanReport(r) == running[r] = {}
Start(r, n) == /\ CanStart(r, n) /\ running' = [running EXCEPT ![r] = @ \cup {n}]
               /\ known' = IF n \in Known(r) THEN known ELSE [known EXCEPT ![r] = Append(@, n)]
               /\ UNCHANGED <<calls, lo, hi>>
Stop(r, n, a, b) == /\ CanStop(r, n) /\ running' = [running EXCEPT ![r] = @ \ {n}]
                    /\ calls' = [calls EXCEPT ![r][n] = @ + 1]
                    /\ lo' = [lo EXCEPT ![r][n] = @ + a] /\ hi' = [hi EXCEPT ![r][n] = @ + b]
                    /\ UNCHANGED known
RECURSIVE Sum(_, _)
Sum(F(_), X) == IF X = {} THEN 0 ELSE LET x == CHOOSE x \in X : TRUE IN F(x) + Sum(F, X \ {x})
\* the report: one row per name, in the order of first use
Rows(R) == LET k == known[CHOOSE r \in R : TRUE] IN
           [i \in 1..Len(k) |-> [n |-> k[i], calls |-> Sum(LAMBDA r : calls[r][k[i]], R),
                                lo |-> Sum(LAMBDA r : lo[r][k[i]], R), hi |-> Sum(LAMBDA r : hi[r][k[i]], R)]]
Report(R) == (\A r \in R : CanReport(r)) /\ (\A r, q \in R : known[r] = known[q]) /\ UNCHANGED pvars
=============================================================================
