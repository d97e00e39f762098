--------------------------- MODULE ConfigMPITrace ---------------------------
EXTENDS ConfigMPI, Json, IOUtils
VARIABLE l
Trace == ndJsonDeserialize(IOEnv.TRACE)
Leafs(es) == LET I == [i \in 1..Len(es) |-> es[i].p] IN [p \in {es[i].p : i \in 1..Len(es)} |-> es[CHOOSE i \in 1..Len(es) : es[i].p = p].v]
Dump(d, c) == TRUE = (/\ {d[i].p : i \in 1..Len(d)} = DOMAIN c
              /\ Len(d) = Cardinality(DOMAIN c)
              /\ \A i \in 1..Len(d) : d[i].s = c[d[i].p].s)
TInit == CInit /\ MInit0(<<>>, <<>>) /\ l = 1
E == Trace[l]
Is(e) == l <= Len(Trace) /\ E.event = e /\ l' = l + 1 /\ UNCHANGED cvars
\* One event per rank: what that rank holds once its constructor returned.  The
\* two collectives are not observable from outside, so the rank's remaining steps are composed.
LoadAt(r, d) == /\ pc[r] # "done" /\ dict' = [dict EXCEPT ![r] = [leaves |-> SetAll(file, forced)]]
                /\ pc' = [pc EXCEPT ![r] = "done"] /\ UNCHANGED <<file, forced, size, buf>>
                /\ Dump(d, dict'[r].leaves)
TNext == \/ /\ Is("Begin") /\ LET f == Leafs(E.base) o == [i \in 1..Len(E.ovr) |-> <<E.ovr[i].p, E.ovr[i].v>>] IN
               /\ TRUE = (PrefixFree(f) /\ AllSettable(f, o))
               /\ file' = f /\ forced' = o /\ pc' = [r \in Ranks |-> IF r < E.ranks THEN "start" ELSE "absent"]
               /\ size' = [r \in Ranks |-> -1] /\ buf' = [r \in Ranks |-> None] /\ dict' = [r \in Ranks |-> None]
         \/ Is("Rank") /\ LoadAt(E.rank, E.dump)
         \/ Is("End") /\ (\A r \in Ranks : pc[r] \in {"done", "absent"}) /\ UNCHANGED mvars
TSpec == TInit /\ [][TNext]_<<cvars, mvars, l>>
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
