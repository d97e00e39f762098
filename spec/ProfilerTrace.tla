--------------------------- MODULE ProfilerTrace ---------------------------
EXTENDS Profiler, Json, IOUtils
VARIABLES l, R
Trace == ndJsonDeserialize(IOEnv.TRACE)
E == Trace[l]
Is(e) == l <= Len(Trace) /\ E.event = e /\ l' = l + 1
TInit == PInit /\ l = 1 /\ R = {}
\* the rows the report printed, against the rows it should print; times in microseconds
Slack(t) == 60 + t \div 500
Match(got, want) == /\ Len(got) = Len(want)
   /\ \A i \in 1..Len(want) : /\ got[i].n = want[i].n /\ got[i].calls = want[i].calls
                              /\ got[i].time + Slack(got[i].time) >= want[i].lo /\ got[i].time <= want[i].hi + Slack(want[i].hi)
                              /\ got[i].each * got[i].calls + 2 * got[i].calls >= got[i].time /\ got[i].each * got[i].calls - 2 * got[i].calls <= got[i].time
Printed == TRUE = (/\ E.ntitle = 1 /\ E.others = 0 /\ Match(E.rows, Rows(R))
   /\ (E.sum => E.nsum = 1) /\ (~E.sum => E.nsum = 0)
   /\ (E.sum /\ Cardinality(R) = 1 => /\ E.stime + Slack(E.stime) >= Sum(LAMBDA i : Rows(R)[i].lo, 1..Len(Rows(R)))
                                      /\ E.stime <= Sum(LAMBDA i : Rows(R)[i].hi, 1..Len(Rows(R))) + Slack(E.stime)))
TNext == \/ /\ Is("Begin") /\ R' = {E.ranks[i] : i \in 1..Len(E.ranks)} /\ TRUE
            /\ known' = [r \in Ranks |-> <<>>] /\ running' = [r \in Ranks |-> {}] /\ calls' = [r \in Ranks |-> [n \in Names |-> 0]]
            /\ lo' = [r \in Ranks |-> [n \in Names |-> 0]] /\ hi' = [r \in Ranks |-> [n \in Names |-> 0]]
         \/ Is("Start") /\ Start(E.r, E.n) /\ UNCHANGED R
         \/ Is("Stop") /\ Stop(E.r, E.n, E.lo, E.hi) /\ UNCHANGED R
         \/ Is("Bad") /\ UNCHANGED <<pvars, R>>
            /\ E.accepted = CASE E.what = "Start" -> CanStart(E.r, E.n) [] E.what = "Stop" -> CanStop(E.r, E.n) [] OTHER -> CanReport(E.r)
         \/ Is("Print") /\ Report(R) /\ UNCHANGED R /\ Printed
         \/ Is("End") /\ Report(R) /\ UNCHANGED R /\ (IF E.on THEN Printed ELSE E.ntitle = 0 /\ E.rows = <<>> /\ E.others = 0)
TSpec == TInit /\ [][TNext]_<<pvars, l, R>>
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
