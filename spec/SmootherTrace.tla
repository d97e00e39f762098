--------------------------- MODULE SmootherTrace ---------------------------
EXTENDS Smoother, Json, IOUtils
VARIABLES l, A, D
Trace == ndJsonDeserialize(IOEnv.TRACE)
E == Trace[l]
Is(e) == l <= Len(Trace) /\ E.event = e /\ l' = l + 1
TInit == l = 1 /\ A = <<>> /\ D = <<>>
Zeros(b) == [i \in 1..Len(b) |-> ZeroV(Len(b[i]))]
\* the operator the smoother was given last is the one it works with
TNext == \/ Is("Begin") /\ A' = <<>> /\ D' = <<>>
         \/ Is("Set") /\ A' = E.A /\ D' = E.D /\ TRUE = (Inverses(E.A, E.D) /\ E.height = E.n /\ E.width = E.n)
         \/ Is("GS") /\ UNCHANGED <<A, D>>
            /\ TRUE = (E.y = Sweeps(A, D, E.b, IF E.iter THEN E.y0 ELSE Zeros(E.b), E.type, E.its) /\ E.kept)
         \/ Is("Forw") /\ UNCHANGED <<A, D>> /\ TRUE = (E.y = Forw(A, D, E.b, E.y0, 1) /\ E.kept)
         \/ Is("Back") /\ UNCHANGED <<A, D>> /\ TRUE = (E.y = Back(A, D, E.b, E.y0, NB(A)) /\ E.kept)
         \/ Is("Jac") /\ UNCHANGED <<A, D>> /\ TRUE = (E.y = Jacobi(D, E.b) /\ E.kept)
TSpec == TInit /\ [][TNext]_<<l, A, D>>
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
