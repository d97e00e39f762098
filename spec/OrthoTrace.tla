----------------------------- MODULE OrthoTrace -----------------------------
EXTENDS Ortho, Json, IOUtils
VARIABLE l
Trace == ndJsonDeserialize(IOEnv.TRACE)
E == Trace[l]
Is(e) == l <= Len(Trace) /\ E.event = e /\ l' = l + 1
TInit == l = 1
TNext == \/ Is("Begin")
         \/ Is("Self") /\ TRUE = Result(E.Q, E.A, <<>>, E.m)
         \/ Is("Against") /\ TRUE = (Result(E.Q, E.A, E.B, E.m) /\ E.kept)
TSpec == TInit /\ [][TNext]_l
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
