--------------------------- MODULE PortStoreTrace ---------------------------
(* Recorded sessions: a port comes back as it was built, and the assembly of the later session *)
(* (whose ports came from files) is the one Component declares.                                  *)
EXTENDS ComponentTrace
VARIABLES built, seen
Free == UNCHANGED <<built, seen>>
P0 == TInit /\ built = <<>> /\ seen = {}
BeginP == Is("Begin") /\ "what" \in DOMAIN E /\ built' = <<>> /\ seen' = {} /\ UNCHANGED cvars
Built == Is("Built") /\ E.name \notin DOMAIN built /\ built' = [n \in DOMAIN built \cup {E.name} |-> IF n = E.name THEN E.v ELSE built[n]] /\ UNCHANGED <<cvars, seen>>
SameSet(a, b) == {a[i] : i \in 1..Len(a)} = {b[i] : i \in 1..Len(b)} /\ Len(a) = Len(b)
Reloaded == /\ Is("Reloaded") /\ E.name \in DOMAIN built \ seen /\ seen' = seen \cup {E.name} /\ UNCHANGED <<cvars, built>>
            /\ TRUE = (LET b == built[E.name] IN E.v.c1 = b.c1 /\ E.v.c2 = b.c2 /\ E.v.a1 = b.a1 /\ E.v.a2 = b.a2 /\ SameSet(E.v.vtx, b.vtx) /\ SameSet(E.v.be, b.be))
Closed == Is("Closed") /\ E.n = E.numref /\ E.n = Cardinality(seen) /\ E.free /\ UNCHANGED <<cvars, built, seen>>
BeginT == "comps" \in DOMAIN E /\ Begin
PNext == BeginP \/ Built \/ Reloaded \/ Closed \/ (l <= Len(Trace) /\ Free /\ (BeginT \/ MeshEv \/ CompEv \/ PortEv \/ End))
PSpec == P0 /\ [][PNext]_<<cvars, l, built, seen>>
=============================================================================
