--------------------------- MODULE SamplingTrace ---------------------------
EXTENDS Sampling, TLC, Json, IOUtils
VARIABLES l, nv, gen, prefix, disk, joined, default
tv == <<l, nv, gen, prefix, disk, joined, default>>
Trace == ndJsonDeserialize(IOEnv.TRACE)
E == Trace[l]
Is(e) == l <= Len(Trace) /\ E.event = e /\ l' = l + 1
TInit == l = 1 /\ nv = 0 /\ gen = NewGen /\ prefix = 0 /\ disk = NewDisk /\ joined = {} /\ default = 0
TBegin == Is("Begin") /\ nv' = E.nv /\ gen' = NewGen /\ prefix' = 0 /\ disk' = NewDisk /\ joined' = {} /\ default' = 0
TSession == Is("Session") /\ gen' = NewGen /\ prefix' = E.p /\ UNCHANGED <<nv, disk, joined, default>>
TSample == /\ Is("Sample") /\ gen' = Sample(gen, E.types, nv, E.id, E.ps)
           /\ E.cols = Columns(gen, E.types, nv, E.id)
           /\ joined' = joined \cup {<<E.id * 10 + E.ps[k][1], E.id * 10 + E.ps[k][2], E.ps[k][3], E.ps[k][4]>> : k \in 1..Len(E.ps)}
           /\ UNCHANGED <<nv, prefix, disk, default>>
TWrite == Is("Write") /\ disk' = Write(disk, prefix, gen) /\ UNCHANGED <<nv, gen, prefix, joined, default>>
TTrain == Is("Train") /\ gen' = NewGen /\ default' = E.d /\ UNCHANGED <<nv, prefix, disk, joined>>
TPort == Is("Port") /\ gen' = CollectPorts(gen, disk, Chosen(E.how, E.list, E.lo, E.hi, default)) /\ UNCHANGED <<nv, prefix, disk, joined, default>>
RECURSIVE ByTag(_, _, _)
ByTag(g, tags, v) == IF tags = <<>> THEN g ELSE
   LET t == tags[1] IN ByTag(CollectTag(g, disk, <<t.c, v>>, Chosen(t.how, t.list, t.lo, t.hi, default)), Tail(tags), v)
RECURSIVE ByVar(_, _, _)
ByVar(g, tags, vs) == IF vs = <<>> THEN g ELSE ByVar(ByTag(g, tags, vs[1]), tags, Tail(vs))
TBasis == Is("Basis") /\ gen' = ByVar(gen, E.tags, Vars(nv)) /\ UNCHANGED <<nv, prefix, disk, joined, default>>
\* what the generator shows of itself
Shows == /\ {<<<<x[1], x[2]>>, x[3]>> : x \in {E.snaps[i] : i \in 1..Len(E.snaps)}} = {<<t, gen.snaps[t]>> : t \in DOMAIN gen.snaps}
         /\ {<<<<x[1], x[2], x[3], x[4]>>, x[5]>> : x \in {E.ports[i] : i \in 1..Len(E.ports)}} = {<<t, gen.ports[t]>> : t \in DOMAIN gen.ports}
TState == Is("State") /\ TRUE = Shows /\ TRUE = Paired(gen, joined) /\ TRUE = Together(gen) /\ UNCHANGED <<nv, gen, prefix, disk, joined, default>>
TMissing == Is("Missing") /\ E.ok = FALSE /\ UNCHANGED <<nv, gen, prefix, disk, joined, default>>
\* the basis of every tag is in the file the reduced model looks for; its singular values decrease
TBasisFile == /\ Is("BasisFile") /\ E.found = TRUE
              /\ E.sv = TRUE => (Len(E.values) >= 1 /\ \A i \in 1..(Len(E.values) - 1) : E.values[i] >= E.values[i + 1])
              /\ E.sv = FALSE => E.values = <<>>
              /\ UNCHANGED <<nv, gen, prefix, disk, joined, default>>
\* sample grids
Val(p, i) == IF p.n = 1 THEN p.lo ELSE p.lo + i * p.step
TGrid == /\ Is("Grid")
         /\ E.total = Product(E.sizes)
         /\ E.nested = [k \in 1..E.total |-> Nested(E.sizes, k - 1)]
         /\ E.back = [k \in 1..E.total |-> k - 1]
         /\ TRUE = Shares(E.total, E.own)
         /\ E.own2 = E.own
         /\ E.vals = [k \in 1..E.total |-> [j \in 1..Len(E.sizes) |-> Val(E.ps[j], Nested(E.sizes, k - 1)[j])]]
         /\ E.paths = [k \in 1..E.total |-> "dir/sample" \o ToString(k - 1) \o "_" \o E.name]
         /\ UNCHANGED <<nv, gen, prefix, disk, joined, default>>
TRandom == /\ Is("Random")
           /\ E.nested = [k \in 1..E.total |-> [j \in 1..Len(E.ps) |-> k - 1]]
           /\ E.back = [k \in 1..E.total |-> k - 1]
           /\ TRUE = Shares(E.total, E.own)
           /\ \A k \in 1..E.total : \A j \in 1..Len(E.ps) : E.vals[k][j] >= E.ps[j].lo /\ E.vals[k][j] <= E.ps[j].hi
           /\ UNCHANGED <<nv, gen, prefix, disk, joined, default>>
TTags == Is("Tags") /\ E.got = [i \in 1..(Len(E.comps) * NV(E.nv)) |-> <<E.comps[((i - 1) \div NV(E.nv)) + 1], Vars(E.nv)[((i - 1) % NV(E.nv)) + 1]>>]
         /\ UNCHANGED <<nv, gen, prefix, disk, joined, default>>
TEnd == Is("End") /\ UNCHANGED <<nv, gen, prefix, disk, joined, default>>
TNext == TBegin \/ TSession \/ TSample \/ TWrite \/ TTrain \/ TPort \/ TBasis \/ TState \/ TMissing \/ TBasisFile \/ TGrid \/ TRandom \/ TTags \/ TEnd
TSpec == TInit /\ [][TNext]_tv
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
