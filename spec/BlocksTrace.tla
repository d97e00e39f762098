---------------------------- MODULE BlocksTrace ----------------------------
EXTENDS Blocks, Json, IOUtils
VARIABLE l
Trace == ndJsonDeserialize(IOEnv.TRACE)
E == Trace[l]
Is(e) == l <= Len(Trace) /\ E.event = e /\ l' = l + 1
\* a recorded collection: [m, n, b : list of [i, j, v]]; zero blocks and absent blocks are the same
IsZero(v) == \A i \in 1..Rows(v) : \A j \in 1..Cols(v) : v[i][j] = 0
Fun(q) == [s \in {<<q[k].i, q[k].j>> : k \in 1..Len(q)} |-> q[CHOOSE k \in 1..Len(q) : <<q[k].i, q[k].j>> = s].v]
NZ(f) == [s \in {t \in DOMAIN f : ~IsZero(f[t])} |-> f[s]]
Same(rec, c) == rec.m = c.m /\ rec.n = c.n /\ NZ(Fun(rec.b)) = NZ(c.b)
Names == {"0", "1", "2"}
All(all) == \A o \in Names : Same(all[o], coll'[o])
TInit == coll = <<>> /\ rs = <<>> /\ cs = <<>> /\ big = <<>> /\ l = 1
Begin == Is("Begin") /\ coll' = [o \in Names |-> [m |-> 0, n |-> 0, b |-> <<>>]] /\ rs' = E.rs /\ cs' = E.cs
         /\ big' = [s \in (1..Len(E.rs)) \X (1..Len(E.cs)) |-> Zero(E.rs[s[1]], E.cs[s[2]])]
Big(full) == \A s \in DOMAIN big' : \A i \in 1..rs[s[1]], j \in 1..cs[s[2]] :
   LET F(k) == rs[k] G(k) == cs[k] IN full[SumTo(F, s[1] - 1) + i][SumTo(G, s[2] - 1) + j] = big'[s][i][j]
TNext == \/ Begin
         \/ Is("resize") /\ Resize(E.o, E.m, E.n) /\ TRUE = All(E.all)
         \/ Is("set") /\ SetBlock(E.o, E.i, E.j, E.v) /\ TRUE = All(E.all)
         \/ Is("drop") /\ Drop(E.o, E.i, E.j) /\ TRUE = All(E.all)
         \/ Is("scale") /\ ScaleBlock(E.o, E.i, E.j, E.w) /\ TRUE = All(E.all)
         \/ Is("copy") /\ Copy(E.o, E.p) /\ TRUE = All(E.all)
         \/ Is("arr") /\ coll' = [coll EXCEPT ![E.o] = [m |-> E.m, n |-> E.n, b |-> Fun(E.b)]] /\ UNCHANGED <<rs, cs, big>> /\ TRUE = All(E.all)
         \/ Is("add") /\ AddTo(E.o, E.ri, E.ci) /\ TRUE = (All(E.all) /\ Big(E.full))
TSpec == TInit /\ [][TNext]_<<bvars, l>>
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
