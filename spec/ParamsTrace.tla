---------------------------- MODULE ParamsTrace ----------------------------
EXTENDS Params, Json, IOUtils
VARIABLE l
Trace == ndJsonDeserialize(IOEnv.TRACE)
E == Trace[l]
Is(e) == l <= Len(Trace) /\ E.event = e /\ l' = l + 1
Leaves(d) == [p \in {d[i].p : i \in 1..Len(d)} |-> d[CHOOSE i \in 1..Len(d) : d[i].p = p].s]
Same(d, c) == TRUE = (Leaves(d) = c /\ Len(d) = Cardinality(DOMAIN c))
TInit == l = 1 /\ params = <<>> /\ size = <<>> /\ cfg = <<>>
P == params[E.k]
\* the value decoded from the option
Fits(p, n, i) == CASE p.kind = "int" -> E.v = IntAt(p, n, i)
                   [] p.kind = "file" -> E.s = Name(p, IntAt(p, n, i))
                   [] OTHER -> Abs(E.v - RealAt(p, n, i)) <= 2
InRange(p, v) == v >= U * p.min - 1 /\ v <= U * p.max + 1
\* hits of each quarter of the range (real) or of each value (int, small ranges)
Spread(p, h) == \A i \in 1..Len(h) : h[i] > 0
Files(p) == [i \in 1..Count(p) |-> Name(p, p.min + i - 1)]
TNext == \/ Is("Begin") /\ params' = E.ps /\ size' = [k \in 1..Len(E.ps) |-> 0] /\ cfg' = Leaves(E.cfg)
         \/ Is("Size") /\ (IF E.ok THEN TRUE = Resizable(E.n) /\ Resize(E.k, E.n) ELSE ~Resizable(E.n) /\ UNCHANGED prvars)
         \/ Is("Max") /\ IsInt(P) /\ Maximise(E.k)
         \/ Is("Set") /\ Write(E.k, E.s) /\ TRUE = (Indexable(E.k, E.i) /\ Fits(P, size[E.k], E.i)) /\ Same(E.cfg, cfg')
         \/ Is("Refused") /\ ~Indexable(E.k, E.i) /\ UNCHANGED prvars
         \/ Is("GetSize") /\ E.n = (IF size[E.k] = 0 THEN -1 ELSE size[E.k]) /\ UNCHANGED prvars
         \/ Is("Rand") /\ Write(E.k, E.s) /\ Same(E.cfg, cfg')
            /\ TRUE = (E.out = 0 /\ Spread(P, E.hits) /\ (P.kind = "file" => \E v \in P.min..P.max : E.s = Name(P, v)))
         \/ Is("Files") /\ TRUE = (P.kind = "file" /\ E.names = E.before \o Files(P)) /\ UNCHANGED prvars
TSpec == TInit /\ [][TNext]_<<prvars, l>>
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
