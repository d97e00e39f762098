---------------------------- MODULE BoxesTrace ----------------------------
EXTENDS Boxes, Json, IOUtils, TLC
VARIABLE l
Trace == ndJsonDeserialize(IOEnv.TRACE)
E == Trace[l]
Is(e) == l <= Len(Trace) /\ E.event = e /\ l' = l + 1
\* same elements in the same order: their corners (up to rounding) and attributes
Near(u, w) == Len(u) = Len(w) /\ \A i \in 1..Len(u) : u[i].a = w[i].a /\ Len(u[i].v) = Len(w[i].v) /\ \A k \in 1..Len(u[i].v) : u[i].v[k] - w[i].v[k] \in -2..2
Kept(x, y) == x.d = y.d /\ Near(x.e, y.e) /\ Near(x.b, y.b)
TInit == BInit /\ l = 1
TNext == \/ Is("Begin") /\ prm' = <<>> /\ got' = "idle"
         \/ Is("Request") /\ Request(E.p)
         \/ Is("Refused") /\ Refused
         \* exactly the requested file: the named one, or one named after the kind of mesh
         \/ Is("Written") /\ Written(Len(E.files) = 1 /\ (IF E.name # "" THEN E.files[1] = E.name ELSE E.like /\ E.files[1] = DefaultName(prm)))
         \/ Is("Elements") /\ TRUE = (got = "file" /\ Filled(prm, E.els)) /\ Elements(E.els)
         \/ Is("Boundary") /\ TRUE = (got = "elems" /\ Skin(prm, E.fs)) /\ Boundary(E.fs)
         \/ Is("Nodes") /\ Nodes(E.nv, E.order, E.dim)
         \* a converted mesh: same elements, boundary and (as far as its order can hold it) geometry
         \/ Is("Convert") /\ UNCHANGED bvars /\ TRUE = (E.rc = 0 /\ Kept(E.before, E.after) /\ E.order = E.want /\ E.geom)
TSpec == TInit /\ [][TNext]_<<bvars, l>>
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
===========================================================================
