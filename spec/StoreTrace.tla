----------------------------- MODULE StoreTrace -----------------------------
EXTENDS Store, Json, IOUtils
VARIABLE l
Trace == ndJsonDeserialize(IOEnv.TRACE)
E == Trace[l]
Is(e) == l <= Len(Trace) /\ E.event = e /\ l' = l + 1
TInit == SInit /\ l = 1
TNext == \/ Is("Begin") /\ store' = <<>> /\ mode' = <<>>
         \/ Is("Create") /\ Create(E.f)
         \/ Is("Close") /\ Close(E.f)
         \/ Is("Open") /\ Open(E.f, E.m)
         \* the object written is left as it was (after = v)
         \/ Is("Write") /\ E.after = E.v /\ Write(E.f, E.g, E.c, E.n, E.kind, E.v)
         \/ Is("Read") /\ Read(E.f, E.g, E.c, E.n, E.kind, E.v)
         \/ Is("Exists") /\ Exists(E.f, E.g, E.n, E.res)
         \/ Is("Size") /\ Size(E.f, E.g, E.n, E.res)
TSpec == TInit /\ [][TNext]_<<store, mode, l>>
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
