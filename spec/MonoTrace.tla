------------------------------ MODULE MonoTrace ------------------------------
EXTENDS Mono, TLC, Json, IOUtils
VARIABLES l, ne
Trace == ndJsonDeserialize(IOEnv.TRACE)
E == Trace[l]
Is(e) == l <= Len(Trace) /\ E.event = e /\ l' = l + 1
TInit == l = 1 /\ ne = 0
TBegin == Is("Begin") /\ ne' = E.ne
\* every port face of the decomposition is a face of the undivided mesh, once
TForm == Is("Form") /\ TRUE = (E.joined = E.listed /\ Len(E.y) = ne /\ IsWhole(E.faces, E.y, T)) /\ UNCHANGED ne
TEnd == Is("End") /\ UNCHANGED ne
TNext == TBegin \/ TForm \/ TEnd
TSpec == TInit /\ [][TNext]_<<l, ne>>
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
