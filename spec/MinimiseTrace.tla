---------------------------- MODULE MinimiseTrace ----------------------------
EXTENDS Minimise, Json, IOUtils, TLC
VARIABLE l
Trace == ndJsonDeserialize(IOEnv.TRACE)
E == Trace[l]
Is(e) == l <= Len(Trace) /\ E.event = e /\ l' = l + 1
TInit == MInit /\ l = 1
TNext == \/ Is("Begin") /\ phase' = "idle" /\ q' = 0 /\ n' = 0 /\ sys' = <<>>
         \/ Is("Start") /\ Start(E.sys)
         \/ Is("Iterate") /\ Iterate(E.q)
         \/ Is("Finish") /\ Finish(E.q, E.x, E.conv, E.meets, E.below)
TSpec == TInit /\ [][TNext]_<<mvars, l>>
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
==============================================================================
