---------------------------- MODULE RomStoreTrace ----------------------------
EXTENDS RomStore, Json, IOUtils
VARIABLE l
Trace == ndJsonDeserialize(IOEnv.TRACE)
E == Trace[l]
Is(e) == l <= Len(Trace) /\ E.event = e /\ l' = l + 1
TInit == RInit /\ l = 1
TNext == \/ Is("Begin") /\ mem' = <<>> /\ file' = <<>> /\ held' = <<>>
         \/ Is("Saved") /\ E.key \notin DOMAIN mem /\ Set(E.key, E.v)
         \/ Is("Kept") /\ mem[E.key] = E.v /\ UNCHANGED rvars
         \/ Is("Loaded") /\ mem[E.key] = E.v /\ UNCHANGED rvars
         \/ Is("Closed") /\ E.n = E.numref /\ E.free /\ UNCHANGED rvars
TSpec == TInit /\ [][TNext]_<<rvars, l>>
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
