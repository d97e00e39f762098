----------------------------- MODULE FacesTrace -----------------------------
EXTENDS Faces, Json, IOUtils
VARIABLE l
Trace == ndJsonDeserialize(IOEnv.TRACE)
E == Trace[l]
Is(e) == l <= Len(Trace) /\ E.event = e /\ l' = l + 1
TInit == l = 1
TNext == Is("Begin") \/ (Is("Face") /\ TRUE = Matches(E)) \/ Is("End")
TSpec == TInit /\ [][TNext]_l
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
