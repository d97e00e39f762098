---------------------------- MODULE BdrDataTrace ----------------------------
EXTENDS BdrData, TLC, Json, IOUtils
VARIABLES l, dom
Trace == ndJsonDeserialize(IOEnv.TRACE)
E == Trace[l]
Is(e) == l <= Len(Trace) /\ E.event = e /\ l' = l + 1
TInit == l = 1 /\ dom = <<>>
TBegin == Is("Begin") /\ dom' = [ne |-> E.ne, nbe |-> E.nbe]
TData == Is("Data") /\ TRUE = (Len(E.faces) = dom.nbe /\ Len(E.y) = dom.ne /\ (\A k \in 1..Len(E.faces) : Says(E.faces[k]) /\ Consistent(E.faces[k])) /\ Assembled(E.faces, E.m, E.y)) /\ UNCHANGED dom
TGauss == Is("Gauss") /\ TRUE = (Abs(E.out - E.made) <= Tol + 1) /\ UNCHANGED dom
TEnd == Is("End") /\ UNCHANGED dom
TNext == TBegin \/ TData \/ TGauss \/ TEnd
TSpec == TInit /\ [][TNext]_<<l, dom>>
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
