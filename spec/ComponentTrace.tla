--------------------------- MODULE ComponentTrace ---------------------------
EXTENDS Component, Json, IOUtils
VARIABLE l
Trace == ndJsonDeserialize(IOEnv.TRACE)
E == Trace[l]
Is(e) == l <= Len(Trace) /\ E.event = e /\ l' = l + 1
TInit == comps = <<>> /\ meshes = <<>> /\ refs = <<>> /\ uses = <<>> /\ outer = {} /\ battr = <<>> /\ pattr = <<>> /\ l = 1
Begin == /\ Is("Begin") /\ comps' = E.comps /\ meshes' = E.meshes /\ refs' = E.refs /\ uses' = E.uses
         /\ outer' = {E.outer[i] : i \in 1..Len(E.outer)} /\ battr' = <<>> /\ pattr' = <<>>
NthOfType(m) == Cardinality({k \in 1..(m - 1) : meshes[k].type = meshes[m].type})
\* one placed copy as the handler gives it: the component's elements and boundary elements in order
MeshEv == /\ Is("Mesh") /\ E.k \in 1..Len(meshes)
          /\ TRUE = (/\ E.type = meshes[E.k].type /\ E.nth = NthOfType(E.k) /\ E.name = comps[E.type].name
                     /\ Len(E.elems) = Len(Comp(E.k).elems)
                     /\ \A i \in 1..Len(E.elems) : E.elems[i] = PlaceAll(E.k, Comp(E.k).elems[i])
                     /\ Len(E.bdr) = Len(Comp(E.k).bdr)
                     /\ \A i \in 1..Len(E.bdr) : E.bdr[i].v = PlaceAll(E.k, Comp(E.k).bdr[i].v)
                     /\ \A i \in 1..Len(E.c2g) : \A b \in Side(E.k, E.c2g[i][1]) : E.bdr[b].a = E.c2g[i][2]
                     /\ UNION {Side(E.k, E.c2g[i][1]) : i \in 1..Len(E.c2g)} = 1..Len(E.bdr)
                     /\ {E.battrs[i] : i \in 1..Len(E.battrs)} = {E.bdr[i].a : i \in 1..Len(E.bdr)})
          /\ battr' = [x \in DOMAIN battr \cup {<<E.k, b>> : b \in 1..Len(E.bdr)} |-> IF x[1] = E.k THEN E.bdr[x[2]].a ELSE battr[x]]
          /\ UNCHANGED <<comps, meshes, refs, uses, outer, pattr>>
\* the reference component is kept as it was read
CompEv == /\ Is("Comp") /\ UNCHANGED cvars
          /\ TRUE = (E.k \in 1..Len(comps) /\ E.name = comps[E.k].name /\ E.elems = comps[E.k].elems /\ E.bdr = comps[E.k].bdr
                     /\ E.copies = Cardinality({m \in 1..Len(meshes) : meshes[m].type = E.k}))
PortEv == /\ Is("Port") /\ E.k \in 1..Len(uses) /\ E.k \notin DOMAIN pattr
          /\ TRUE = (LET u == uses[E.k] r == refs[u.type] IN
                     /\ E.m1 = u.m1 /\ E.m2 = u.m2 /\ E.a1 = u.a1 /\ E.a2 = u.a2 /\ E.type = u.type
                     /\ E.c1 = r.c1 /\ E.c2 = r.c2 /\ E.ra1 = r.a1 /\ E.ra2 = r.a2 /\ E.p1 = r.c1 /\ E.p2 = r.c2
                     /\ Links(u.m1, u.a1, u.m2, u.a2, E.ifs) /\ E.rifs = E.ifs)
          /\ pattr' = [w \in DOMAIN pattr \cup {E.k} |-> IF w = E.k THEN E.attr ELSE pattr[w]]
          /\ UNCHANGED <<comps, meshes, refs, uses, outer, battr>>
End == /\ Is("End") /\ UNCHANGED cvars
       /\ TRUE = (/\ E.numsub = Len(meshes) /\ E.numcomp = Len(comps) /\ E.numports = Len(uses) /\ E.numref = Len(refs)
                  /\ E.dim = Len(comps[1].elems[1][1])
                  /\ {E.battrs[i] : i \in 1..Len(E.battrs)} = GlobalAttrs /\ Len(E.battrs) = Cardinality(GlobalAttrs)
                  /\ DOMAIN battr = UNION {{<<m, b>> : b \in 1..Len(Comp(m).bdr)} : m \in 1..Len(meshes)}
                  /\ Sane /\ PortAttrsRight /\ AttrsRight
                  /\ E.free)
TNext == Begin \/ MeshEv \/ CompEv \/ PortEv \/ End
TSpec == TInit /\ [][TNext]_<<cvars, l>>
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
