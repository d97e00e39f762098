--------------------------- MODULE TransferTrace ---------------------------
(* After the real transfer every element of the whole mesh is reported once, by the subdomain owning it, with the *)
(* values of both fields (all variables and components, scaled by 1e5) at the same physical points.               *)
EXTENDS Transfer, Json, IOUtils
VARIABLES l, ne
Trace == ndJsonDeserialize(IOEnv.TRACE)
E == Trace[l]
Is(e) == l <= Len(Trace) /\ E.event = e /\ l' = l + 1
TInit == owner = <<>> /\ local = <<>> /\ glob = <<>> /\ done = {} /\ l = 1 /\ ne = 0
TNext == \/ Is("Begin") /\ E.kept = TRUE /\ ne' = E.ne /\ done' = {} /\ UNCHANGED <<owner, local, glob>>
         \/ Is("Value") /\ E.e \in 1..ne /\ E.e \notin done /\ TRUE = (Len(E.sub) > 0 /\ Near(E.sub, E.glob, 3))
            /\ done' = done \cup {E.e} /\ UNCHANGED <<owner, local, glob, ne>>
         \/ Is("End") /\ done = 1..ne /\ UNCHANGED <<fvars, ne>>
TSpec == TInit /\ [][TNext]_<<fvars, l, ne>>
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
